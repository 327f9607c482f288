PROPERTY='C10'
NEEDS='an OBJ file whose faces use relative indices and in which vertices follow after the first face'
BREAKS='relative indices are resolved against the vertices that were read before the first face'
EDITS=[('include/kigumi/io/obj.h','''  std::string s;
  std::vector<Vertex_index> face;
''','''  std::string s;
  std::vector<Vertex_index> face;
  std::size_t num_vertices{};
'''),('include/kigumi/io/obj.h','''          face.push_back(Vertex_index{new_soup.num_vertices() + v});''','''          if (num_vertices == 0) {
            num_vertices = new_soup.num_vertices();
          }
          face.push_back(Vertex_index{num_vertices + v});''')]
DEMO='''#include "demo_util.h"
#include <kigumi/Triangle_soup_io.h>
using namespace kigumi;
int main() {
  Triangle_soup<K, Null_data> s;
  std::istringstream in{"v 0 0 0\\nv 1 0 0\\nv 0 1 0\\nf -3 -2 -1\\nv 0 0 1\\nv 1 0 1\\nv 0 1 1\\nf -3 -2 -1\\n"};
  require(io::read_obj(in, s), "valid file");
  require(s.num_faces() == 2, "two faces");
  auto f = s.face(Face_index{1});
  require(f[0].idx() == 3 && f[1].idx() == 4 && f[2].idx() == 5, "the second face belongs to the second group");
}
'''
