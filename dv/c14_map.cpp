// C14: traversal of maps.
#include "map.hpp"
struct Visit { Map* q; const Instanceable::InstanceNode* root; bool started; uint32_t index; int part; };  // the visit that is due
HARNESS(map_for_each)
{
    Map q; uint32_t n = q.size(); size_t depth = nd<uint64_t>();
    Instanceable::InstanceNode node(q.type, q.mem); node.deep = depth;
    Visit v{&q, &node, false, 0, 0}; Visit* w = &v;
    q.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(!w->started) { ASSERT(&c == w->root, "the data itself is visited first"); w->started = true; }
        else
        {
            uint32_t i = w->index; int part = w->part;
            ASSERT(i < w->q->size(), "not more visits than entries");
            if(part == 0) { ASSERT(c.instance == w->q->at(i), "each entry is visited once, in index order"); ASSERT(c.from_index == i && c.deep == w->root->deep + 1 && c.parent == w->root && c.from_member == nullptr, "the visit tells index, depth and parent of the entry"); ASSERT(&c.type == &w->q->type.content_type(), "the visit tells the type of the entry"); }
            else
            {
                ASSERT(c.instance == (part == 1 ? w->q->at(i) : w->q->vat(i)), "after an entry its key and its value are visited");
                ASSERT(c.from_index == size_t(part - 1) && c.deep == w->root->deep + 2 && c.parent->parent == w->root && c.parent->from_index == i, "the visit tells which part of which entry it is");
                ASSERT(Opaque::id(c.type) == (part == 1 ? w->q->k : w->q->v), "the visit tells the type of the key or value");
            }
            if(part == 2) { w->part = 0; w->index++; } else w->part++;
        }
    });
    ASSERT(v.started && v.index == n && v.part == 0, "every key and every value is visited");
}
