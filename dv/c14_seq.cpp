// C14: traversal of sequences.
#include "seq.hpp"
struct Visit { Seq* q; const Instanceable::InstanceNode* root; uint32_t count; };
HARNESS(seq_for_each)
{
    Seq q; uint32_t n = q.size(); size_t depth = nd<uint64_t>();
    Instanceable::InstanceNode node(q.type, q.mem); node.deep = depth;
    Visit v{&q, &node, 0}; Visit* w = &v;
    q.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(w->count == 0) ASSERT(&c == w->root, "the data itself is visited first");
        else
        {
            uint32_t i = w->count - 1;
            ASSERT(i < w->q->size(), "not more visits than elements");
            ASSERT(c.instance == w->q->at(i), "each element is visited once, in index order");
            ASSERT(c.from_index == i && c.deep == w->root->deep + 1 && c.parent == w->root && c.from_member == nullptr, "the visit tells index, depth and parent of the element");
            ASSERT(Opaque::id(c.type) == w->q->id, "the visit tells the type of the element");
        }
        w->count++;
    });
    ASSERT(v.count == n + 1, "every element is visited");
}
