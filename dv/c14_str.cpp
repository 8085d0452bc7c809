// C14: traversal of structures over any member types: for_each and items().
#include "str.hpp"
template<int N> struct Vis { Str<N>* s; const Instanceable::InstanceNode* root; uint32_t count; };
template<int N> void visit(Str<N>& s)
{
    s.fill(); size_t depth = nd<uint64_t>(); Instanceable::InstanceNode node(s.type, s.mem); node.deep = depth; Vis<N> v{&s, &node, 0}; Vis<N>* w = &v;
    s.type.for_each_instance(node, [w](const Instanceable::InstanceNode& c)
    {
        if(w->count == 0) ASSERT(&c == w->root, "the data itself is visited first");
        else
        {
            uint32_t i = w->count - 1; ASSERT(i < N, "not more visits than members"); ASSERT(c.instance == w->s->at(i), "each member is visited once, in declaration order");
            ASSERT(c.from_index == i && c.deep == w->root->deep + 1 && c.parent == w->root, "the visit tells index, depth and parent of the member"); ASSERT(c.from_member == &w->s->type.members()[i], "the visit tells the member");
            ASSERT(Opaque::id(c.type) == w->s->id(i), "the visit tells the type of the member");
        }
        w->count++;
    });
    ASSERT(v.count == N + 1, "every member is visited");
    // iteration over the members
    WritableDynamicDataRef r(s.type, s.mem); uint32_t n = 0;
    for(auto&& p : r.items())
    {
        ASSERT(n < N, "not more members than declared"); ASSERT(p.data().instance_ == s.at(n) && Opaque::id(p.data().type()) == s.id(n), "items() yields the stored members in declaration order"); ASSERT(p.member().name() == s.name(n), "items() tells the member");
        ++n;
    }
    ASSERT(n == N, "items() yields every member"); ASSERT(r.size() == N, "size() is the number of members");
}
HARNESS(struct_1) { Str<1> s; visit<1>(s); }
HARNESS(struct_2) { Str<2> s; visit<2>(s); }
HARNESS(struct_3) { Str<3> s; visit<3>(s); }
HARNESS(struct_inherited) { Str<2> s(Str<2>::Inherit(), 1); visit<2>(s); }
HARNESS(struct_types)
{
    Str<2> s; uint32_t n = 0; uint32_t* w = &n; Str<2>* t = &s;
    DynamicType::TypeNode root(s.type); s.type.for_each_type(root, [w, t](const DynamicType::TypeNode& c) { if(*w) { uint32_t i = *w - 1; ASSERT(i < 2, "not more visits than members"); ASSERT(Opaque::id(c.type()) == t->id(i) && c.from_index() == i && c.deep() == 1 && c.from_member() == &t->type.members()[i], "the type of each member is visited in declaration order"); } ++*w; });
    ASSERT(n == 3, "the type of every member is visited");
}
