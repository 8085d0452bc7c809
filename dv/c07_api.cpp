// C07: unions through the API of data, and the declaration of unions.
#include "uni.hpp"
HARNESS(api_name)
{
    auto& u = *new Uni<int32_t>(0, primitive_type<int32_t>()); u.state(); WritableDynamicDataRef r(u.type, u.mem); int k = nd<bool>(); WritableDynamicDataRef m = r[u.name(k)];
    ASSERT(m.instance_ == u.at() && Opaque::id(m.type()) == u.m(k).id_, "a member selected by name is the stored one"); u.corresponds(k); if(k == u.sel) ASSERT(u.now() == u.disc && u.val(k) == u.first(), "selecting the active member changes nothing"); else ASSERT(u.val(k) == __xt_v_default(u.m(k).id_), "a newly selected member has its default value");
    ASSERT(r.d().value<int32_t>() == u.now() && r.current_case().name() == u.name(k), "d() and current_case() tell the active member");
}
HARNESS(api_read)
{
    auto& u = *new Uni<int32_t>(nd<bool>() ? 1 : 0, primitive_type<int32_t>()); u.state(); WritableDynamicDataRef w(u.type, u.mem); const ReadableDynamicDataRef& r = w; int k = nd<bool>(); P p = nullptr; uint64_t t = 0;
    bool no = rejects([&]{ auto m = r[u.name(k)]; p = m.instance_; t = Opaque::id(m.type()); }); ASSERT(no == (k != u.sel), "exactly the active member can be read"); if(!no) ASSERT(p == u.at() && t == u.m(k).id_, "reading gives the stored member"); u.unchanged();
    ASSERT(rejects([&]{ w["discriminator"]; }) && rejects([&]{ r["discriminator"]; }) && rejects([&]{ w["z"]; }) && rejects([&]{ r["z"]; }) && rejects([&]{ w[0]; }), "what is not a member cannot be accessed"); u.unchanged();
    ASSERT(rejects([&]{ r.current_case(); }) == (u.sel < 0), "without selection there is no current case"); u.unchanged();
}
HARNESS(api_disc)
{
    auto& u = *new Uni<int32_t>(0, primitive_type<int32_t>()); u.state(); WritableDynamicDataRef r(u.type, u.mem); int32_t x = nd<int32_t>(); int o = u.owner(x); bool ok = o >= 0 && (u.sel < 0 || o == u.sel);
    bool no = nd<bool>() ? rejects([&]{ r.d(x); }) : rejects([&]{ DynamicData d(primitive_type<int32_t>()); d = x; r.d(d); });
    ASSERT(no == !ok, "a discriminator is accepted exactly when it is a label of the active member, or any label when none is active"); if(no) u.unchanged(); else { ASSERT(u.now() == x && r.d().value<int32_t>() == x, "d() reads the accepted discriminator"); u.corresponds(o); if(u.sel >= 0) ASSERT(u.val(o) == u.first(), "the active member keeps its value"); }
}
// ------------------------------------------------------------ declarations
template<class D> struct Decl
{
    Uni<D>& u; size_t n, size; int64_t def;
    Decl(Uni<D>& x) : u(x), n(x.type.members().size()), size(x.type.memory_size()), def(x.type.default_) {}
    static int64_t w(D x) { return int64_t(Uni<D>::wide(x)); }
    void as_it_was()
    {
        ASSERT(u.type.members().size() == n && u.type.memory_size() == size && u.type.default_ == def && !u.type.has_member("c") && u.type.indexes_.size() == n, "a refused declaration adds no member");
        ASSERT(u.type.labels_.size() == (u.v == 2 ? 3u : 3u), "a refused declaration adds no label"); for(int k = 0; k < (u.v == 2 ? 2 : 3); ++k) ASSERT(u.type.labels_.count(w(u.l[k])) == 1 && u.type.labels_.at(w(u.l[k])) == u.name(u.owner(u.l[k])), "a refused declaration keeps the labels");
    }
};
template<class D, bool TWO = false> void declare(int v)
{
    auto& u = *new Uni<D>(v, primitive_type<D>()); Decl<D> was(u); Opaque o(any_id(), TypeKind::SEQUENCE_TYPE); const DynamicType& t = o; D x = nd<D>(), y = TWO ? nd<D>() : x;
    bool fx = Uni<D>::usable(x) && (v == 2 ? x != u.l[0] && x != u.l[1] : u.owner(x) < 0), fy = Uni<D>::usable(y) && (v == 2 ? y != u.l[0] && y != u.l[1] : u.owner(y) < 0), def = nd<bool>(); if(TWO) ASSUME(x != y);
    bool ok = fx && fy && !(def && v);
    bool no = rejects([&]{ u.type.add_case_member(TWO ? std::vector<D>{x, y} : std::vector<D>{x}, "c", t, def); }); ASSERT(no == !ok, "a member is refused exactly when a label is used or reserved, or for a second default");
    if(no) { was.as_it_was(); return; }
    ASSERT(u.type.labels_.at(was.w(x)) == "c" && u.type.labels_.at(was.w(y)) == "c" && u.type.has_member("c"), "an added member has its labels"); for(int k = 0; k < (v == 2 ? 2 : 3); ++k) ASSERT(u.type.labels_.at(was.w(u.l[k])) == u.name(u.owner(u.l[k])), "the other members keep their labels");
    ASSERT(u.type.is_default("c") == def && u.type.get_default() == (def ? "c" : v ? "b" : ""), "there is at most one default member"); ASSERT(u.type.memory_size() >= sizeof(D) + o.memory_size() && u.type.memory_size() >= was.size, "the union has room for its largest member"); ASSERT(u.type.member(size_t(3)).offset() == sizeof(D), "members lie behind the discriminator");
}
HARNESS(declare_int32_0) { declare<int32_t>(0); } HARNESS(declare_int32_1) { declare<int32_t>(1); } HARNESS(declare_int32_2) { declare<int32_t>(2); }
HARNESS(declare_uint8) { declare<uint8_t, true>(0); } HARNESS(declare_int8) { declare<int8_t>(1); } HARNESS(declare_int64) { declare<int64_t>(0); } HARNESS(declare_uint16) { declare<uint16_t>(2); }
HARNESS(declare_names)
{
    auto& u = *new Uni<int16_t>(0, primitive_type<int16_t>()); Decl<int16_t> was(u); Opaque o(any_id(), TypeKind::SEQUENCE_TYPE); const DynamicType& t = o; int16_t x = nd<int16_t>(); ASSUME(u.usable(x) && u.owner(x) < 0);
    ASSERT(rejects([&]{ u.type.add_case_member(std::vector<int16_t>{x}, "a", t); }) && rejects([&]{ u.type.add_case_member(std::vector<int16_t>{x}, "b", t, true); }) && rejects([&]{ u.type.add_case_member(std::vector<int16_t>{x}, "discriminator", t); }) && rejects([&]{ u.type.add_case_member(std::vector<int16_t>(), "c", t); }), "used and reserved names and members without label are refused"); was.as_it_was();
}
HARNESS(labels_of)
{
    auto& u = *new Uni<int32_t>(nd<bool>(), primitive_type<int32_t>()); std::vector<int64_t> a = u.type.get_labels("a"), b = u.type.get_labels("b"); size_t na = u.v == 0 ? 2 : 1;
    ASSERT(a.size() == na && b.size() == 3 - na, "every label belongs to one member"); ASSERT(u.type.is_default("b") == (u.v == 1) && !u.type.is_default("a"), "the default member is the declared one");
}
HARNESS(discriminators)
{
    Opaque o(any_id(), any_kind()); ASSUME(!o.is_primitive_type() && !o.is_enumerated_type()); const DynamicType& t = o; ASSERT(rejects([&]{ UnionType("U", t); }) && rejects([&]{ UnionType("U", primitive_type<float>()); }) && rejects([&]{ UnionType("U", primitive_type<double>()); }) && rejects([&]{ UnionType("U", primitive_type<long double>()); }), "only integral types discriminate");
    AliasType al(primitive_type<float>(), "x"), am(al, "y"), an(o, "z"); ASSERT(rejects([&]{ UnionType("U", am); }) && rejects([&]{ UnionType("U", an); }), "only integral types discriminate, aliased or not");
}
