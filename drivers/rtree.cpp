#include <new>
#include "common.hpp"
#include "RTree.h"
struct Item { long tag; };
struct Tree : RTree<Item*, double, 2> {
    using Base = RTree<Item*, double, 2>;
    using Base::Rect; using Base::Node; using Base::Branch; using Base::ListNode; using Base::PartitionVars;
    using Base::Overlap; using Base::CombineRect; using Base::NodeCover; using Base::Search; using Base::AddBranch;
    using Base::DisconnectBranch; using Base::GetBranches; using Base::InitParVars; using Base::PickSeeds; using Base::Classify;
    using Base::ChoosePartition; using Base::LoadNodes; using Base::SplitNode; using Base::PickBranch; using Base::InsertRectRec;
    using Base::InsertRect; using Base::RemoveRectRec; using Base::RemoveRect; using Base::ReInsert; using Base::m_root;
};
using Rect = Tree::Rect; using Node = Tree::Node; using Branch = Tree::Branch; using ListNode = Tree::ListNode; using Parts = Tree::PartitionVars;
OFF(n_count, Node, m_count) OFF(n_level, Node, m_level) OFF(n_branch, Node, m_branch) SIZ(node, Node) SIZ(branch, Branch) SIZ(rect, Rect)
OFF(b_child, Branch, m_child) OFF(b_rect, Branch, m_rect) OFF(rc_min, Rect, m_min) OFF(rc_max, Rect, m_max)
OFF(pv_partition, Parts, m_partition) OFF(pv_total, Parts, m_total) OFF(pv_minFill, Parts, m_minFill) OFF(pv_taken, Parts, m_taken)
OFF(pv_count, Parts, m_count) OFF(pv_buf, Parts, m_branchBuf) OFF(pv_cover, Parts, m_cover) OFF(pv_area, Parts, m_area) OFF(pv_coverSplitArea, Parts, m_coverSplitArea) OFF(pv_branchCount, Parts, m_branchCount) SIZ(pv, Parts)
OFF(l_next, ListNode, m_next) OFF(l_node, ListNode, m_node) SIZ(l, ListNode) OFF(tree_root, Tree, m_root) SIZ(tree, Tree)
extern "C" { extern const long off_maxnodes; const long off_maxnodes = Tree::MAXNODES; extern const long off_minnodes; const long off_minnodes = Tree::MINNODES; }
extern "C" bool vc_callback(Item*, void*);
VC bool d_overlap(Tree* t, Rect* a, Rect* b) { return t->Overlap(a, b); }
VC void d_combine(Tree* t, Rect* a, Rect* b, Rect* out) { *out = t->CombineRect(a, b); }
VC void d_cover(Tree* t, Node* n, Rect* out) { *out = t->NodeCover(n); }
VC bool d_search(Tree* t, Node* n, Rect* r, int* f, void* c) { return t->Search(n, r, *f, vc_callback, c); }
VC int d_search_all(Tree* t, const double* a, const double* b, void* c) { return t->Search(a, b, vc_callback, c); }
VC bool d_add(Tree* t, Branch* b, Node* n, Node** o) { return t->AddBranch(b, n, o); }
VC void d_disconnect(Tree* t, Node* n, int i) { t->DisconnectBranch(n, i); }
VC void d_get(Tree* t, Node* n, Branch* b, Parts* p) { t->GetBranches(n, b, p); }
VC void d_initvars(Tree* t, Parts* p, int n, int m) { t->InitParVars(p, n, m); }
VC void d_seeds(Tree* t, Parts* p) { t->PickSeeds(p); }
VC void d_classify(Tree* t, int i, int g, Parts* p) { t->Classify(i, g, p); }
VC void d_choose(Tree* t, Parts* p, int m) { t->ChoosePartition(p, m); }
VC void d_load(Tree* t, Node* a, Node* b, Parts* p) { t->LoadNodes(a, b, p); }
VC void d_split(Tree* t, Node* n, Branch* b, Node** o) { t->SplitNode(n, b, o); }
VC int d_pick(Tree* t, Rect* r, Node* n) { return t->PickBranch(r, n); }
VC bool d_insertrec(Tree* t, Rect* r, Node* c, Node* n, Node** o, int l) { return t->InsertRectRec(r, c, n, o, l); }
VC bool d_insertrect(Tree* t, Rect* r, Node* c, Node** root, int l) { return t->InsertRect(r, c, root, l); }
VC void d_insert(Tree* t, const double* a, const double* b, Item* i) { t->Insert(a, b, i); }
VC bool d_removerec(Tree* t, Rect* r, Item* i, Node* n, ListNode** l) { return t->RemoveRectRec(r, i, n, l); }
VC bool d_removerect(Tree* t, Rect* r, Item* i, Node** root) { return t->RemoveRect(r, i, root); }
VC void d_remove(Tree* t, const double* a, const double* b, Item* i) { t->Remove(a, b, i); }
VC void d_reinsert(Tree* t, Node* n, ListNode** l) { t->ReInsert(n, l); }
VC void d_removeall(Tree* t) { t->RemoveAll(); }
VC void d_construct(void* p) { new (p) Tree(); }
