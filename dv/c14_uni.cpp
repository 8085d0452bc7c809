// C14: traversal of unions over any member types and labels.
#include "uni.hpp"
struct Vis { Uni<int32_t>* u; const Instanceable::InstanceNode* root; uint32_t count; };
HARNESS(union_for_each)
{
    auto& u = *new Uni<int32_t>(nd<bool>(), primitive_type<int32_t>()); u.state(); size_t depth = nd<uint64_t>(); Instanceable::InstanceNode node(u.type, u.mem); node.deep = depth; Vis v{&u, &node, 0}; Vis* w = &v;
    u.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(w->count == 0) ASSERT(&c == w->root, "the data itself is visited first");
        else
        {
            ASSERT(w->count == 1 && w->u->sel >= 0, "only the selected member is visited"); ASSERT(c.instance == w->u->at() && Opaque::id(c.type) == w->u->m(w->u->sel).id_, "the stored member is visited"); ASSERT(c.deep == w->root->deep + 1 && c.parent == w->root, "the visit tells depth and parent of the member"); ASSERT(c.from_member == &w->u->type.members()[1 + w->u->sel], "the visit tells the member");
            ASSERT(uint32_t(c.from_index) == uint32_t(w->u->disc), "the visit tells the label");
        }
        w->count++;
    });
    ASSERT(v.count == (u.sel < 0 ? 1u : 2u), "a selected member is visited"); u.unchanged();
}
