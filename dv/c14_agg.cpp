// C14: traversal of arrays and pairs.
#include "agg.hpp"
struct Visit { Arr* q; const Instanceable::InstanceNode* root; uint32_t count; };
HARNESS(arr_for_each)
{
    Arr q; size_t depth = nd<uint64_t>(); Instanceable::InstanceNode node(q.type, q.mem); node.deep = depth;
    Visit v{&q, &node, 0}; Visit* w = &v;
    q.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(w->count == 0) ASSERT(&c == w->root, "the data itself is visited first");
        else
        {
            uint32_t i = w->count - 1;
            ASSERT(i < w->q->n, "not more visits than elements");
            ASSERT(c.instance == w->q->at(i), "each element is visited once, in index order");
            ASSERT(c.from_index == i && c.deep == w->root->deep + 1 && c.parent == w->root && c.from_member == nullptr, "the visit tells index, depth and parent of the element");
            ASSERT(Opaque::id(c.type) == w->q->id, "the visit tells the type of the element");
        }
        w->count++;
    });
    ASSERT(v.count == q.n + 1, "every element is visited");
}
struct Visit2 { Par* q; const Instanceable::InstanceNode* root; uint32_t count; const Member* m; };
HARNESS(pair_for_each)
{
    Par q; size_t depth = nd<uint64_t>(); Instanceable::InstanceNode node(q.type, q.mem); node.deep = depth;
    Visit2 v{&q, &node, 0, nullptr}; Visit2* w = &v;
    q.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(w->count == 0) ASSERT(&c == w->root, "the data itself is visited first");
        else
        {
            uint32_t i = w->count - 1;
            ASSERT(i < 2, "not more visits than parts"); ASSERT(c.instance == (i ? w->q->second() : w->q->first()), "each part is visited once, in order");
            ASSERT(c.from_index == i && c.deep == w->root->deep + 1 && c.parent == w->root, "the visit tells index, depth and parent of the part");
            ASSERT(Opaque::id(c.type) == (i ? w->q->b.id_ : w->q->a.id_), "the visit tells the type of the part");
        }
        w->count++;
    });
    ASSERT(v.count == 3, "both parts are visited");
}
