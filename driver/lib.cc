// Analysis driver: makes every template of the library visible to the analyser as resolved,
// instantiated code.  Never linked or run; `kast` only parses it.
#include "compat.h"
#include <CGAL/Exact_predicates_exact_constructions_kernel.h>
#include "all_repo_headers.inc"
#include "cli_utility.inc"

using K = CGAL::Exact_predicates_exact_constructions_kernel;

// A face data type with non-trivial content: the attribute of the user of the library.
struct FD {
  int value{};
};

namespace kigumi {
template <>
struct Write<FD> {
  void operator()(std::ostream& out, const FD& t) const { kigumi_write<std::int32_t>(out, t.value); }
};
template <>
struct Read<FD> {
  void operator()(std::istream& in, FD& t) const { kigumi_read<std::int32_t>(in, t.value); }
};

template class Index<Face_index_tag>;
template class Index<Vertex_index_tag>;
template class Region<K, FD>;
template class Triangle_soup<K, FD>;
template class Boolean_region_builder<K, FD>;
template class Find_defects<K, FD>;
#ifndef KVF_PUBLIC_ONLY
template class Triangle_mesh<K, Mixed_face_data<FD>>;
template class Triangle_soup<K, Mixed_face_data<FD>>;
template class Extract<K, FD>;
template class Mix<K, FD>;
template class Corefine<K, FD>;
template class Classify_faces_globally<K, FD>;
template class Classify_faces_locally<K, FD>;
template class Propagate_face_tags<K, FD>;
template class Side_of_triangle_soup<K, FD>;
template class Face_face_intersection<K>;
template class Find_coplanar_faces<K, FD>;
template class Find_possibly_intersecting_faces<K, FD>;
template class Intersection_point_inserter<K>;
template class Point_list<K>;
template class Triangulation<K>;
template class AABB_tree<typename Triangle_soup<K, FD>::Leaf>;
template class AABB_node<typename Triangle_soup<K, FD>::Leaf>;
template class Context<Threading_options>;
#endif
template struct Write<Region<K, FD>>;
template struct Read<Region<K, FD>>;
template struct Write<Triangle_soup<K, FD>>;
template struct Read<Triangle_soup<K, FD>>;
}  // namespace kigumi

namespace kvf_driver {
using Soup = kigumi::Triangle_soup<K, FD>;
using Region = kigumi::Region<K, FD>;

void use_soup_io(std::istream& is, std::ostream& os, const std::string& f, Soup& s) {
  kigumi::io::read_obj(is, s);
  kigumi::io::read_off(is, s);
  kigumi::io::read_ply(is, s);
  kigumi::io::read_obj(f, s);
  kigumi::io::read_off(f, s);
  kigumi::io::read_ply(f, s);
  kigumi::io::write_obj(os, s);
  kigumi::io::write_off(os, s);
  kigumi::io::write_ply(os, s);
  kigumi::io::write_obj(f, s);
  kigumi::io::write_off(f, s);
  kigumi::io::write_ply(f, s);
  kigumi::read_triangle_soup(f, s);
  kigumi::write_triangle_soup(f, s);
}

void use_region_io(std::istream& is, std::ostream& os, const std::string& f, Region& r) {
  kigumi::read_kigumi_region(is, r);
  kigumi::write_kigumi_region(os, r);
  kigumi::read_kigumi_region(f, r);
  kigumi::write_kigumi_region(f, r);
  ::read_region(f, r);
  ::write_region(f, r);
}

void use_builder(const Region& a, const Region& b) {
  kigumi::Boolean_region_builder builder{a, b};
  auto r = builder(kigumi::Boolean_operator::A);
  (void)r;
  Region c{r};
  c = a;
  c = std::move(r);
}

void use_numbers(std::istream& is, std::ostream& os, mpq_class& q,
                 boost::multiprecision::cpp_rational& r) {
  kigumi::kigumi_write<mpq_class>(os, q);
  kigumi::kigumi_read<mpq_class>(is, q);
  kigumi::kigumi_write<boost::multiprecision::cpp_rational>(os, r);
  kigumi::kigumi_read<boost::multiprecision::cpp_rational>(is, r);
}

void use_side(const Soup& s, const K::Point_3& p) {
  kigumi::Side_of_triangle_soup<K, FD> side;
  side(s, p);
}

}  // namespace kvf_driver
