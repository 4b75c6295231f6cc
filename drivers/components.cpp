#include "common.hpp"
#include "connectedcomponents.hpp"
struct Node { long tag; };
using CC = lmb::ConnectedComponents<Node>;
SIZ(node, Node) SIZ(cc, CC)
VC bool d_component(CC* c, CC::Connections* res) { return c->get_component(*res); }
VC void d_init(CC* c, Node* k) { c->init(k); }
VC void d_connect(CC* c, Node* k, const CC::Connections* l) { c->connect(k, *l); }
