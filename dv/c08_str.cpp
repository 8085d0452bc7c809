// C08: members of a structure over any member types, own and inherited.
#include "str.hpp"
template<int N> void parts(Str<N>& s)
{
    s.fill();
    for(int k = 0; k < N; ++k) ASSERT(s.live(k) && s.val(k) == s.first(k), "every member has a place of its own");
    for(int k = 0; k < N; ++k)
    {
        uint64_t v[N]; for(int j = 0; j < N; ++j) v[j] = s.val(j);
        uint64_t x = s.change(k);
        for(int j = 0; j < N; ++j) ASSERT(s.val(j) == (j == k ? x : v[j]), "writing a member changes that member only");
    }
}
HARNESS(struct_1) { Str<1> s; parts<1>(s); }
HARNESS(struct_2) { Str<2> s; parts<2>(s); }
HARNESS(struct_3) { Str<3> s; parts<3>(s); }
HARNESS(struct_inherited) { Str<3> s(Str<3>::Inherit(), 2); parts<3>(s); }
HARNESS(struct_inherited_1) { Str<2> s(Str<2>::Inherit(), 1); parts<2>(s); }
