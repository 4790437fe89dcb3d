// Generator of .obj files together with what an importer must deliver.
#pragma once
#include "common.hpp"
#include <array>
namespace hx {
struct ObjTri { float p[3][3]; float n[3][3]; float t[3][2]; int mat; size_t end; };   // mat: index into ObjFile::mats, -1 default; end: offset just behind the face's line
struct ObjMesh { std::string name; std::vector<ObjTri> tris; };
struct ObjFile { std::string data; std::vector<ObjMesh> meshes; std::vector<std::string> mats; std::string what; };
// mats: names the file may use (registered or not)
ObjFile make_obj(Rng& r,const std::vector<std::string>& mats,int pad,int size);
std::string damage_obj(const std::string& d,Rng& r,std::string& what);
}
