// Independent encoders and decoders of the image formats, on memory.
#pragma once
#include "common.hpp"
namespace hx {
struct Pic { int w=0,h=0; std::vector<u32> v; u32 at(int x,int y) const { return v[(size_t)y*w+x]; } };
static inline u32 bgra(u32 r,u32 g,u32 b,u32 a){ return b<<24|g<<16|r<<8|a; }
static inline int chan(u32 p,int k){ return k==0?(p>>8)&255:k==1?(p>>16)&255:k==2?p>>24:p&255; } // r g b a
Pic make_pic(Rng& r,int w,int h,int style,bool alpha);  // style 0 noise 1 gradient 2 few colours
// an encoded file and the pixels a reader must deliver; tol: per channel tolerance
struct File8 { std::string data; Pic pix; int tol=0; std::string what; bool optional=false; };  // optional: well formed, but the program may refuse it
extern const std::vector<const char*> EXTS;              // bmp tga ppm jpg png tif (+aliases)
File8 encode_any(const std::string& ext,Rng& r,int w,int h,int style); // a random variant of the format
File8 encode_rare(const std::string& ext,Rng& r,int w,int h,int style); // a variant the program need not support
bool decode_any(const std::string& ext,const std::string& data,Pic& out,std::string& why); // strict decoder of what the program writes
std::string diff(const Pic& a,const Pic& b,int tol,bool alpha); // "" when equal
std::string damage(const std::string& d,Rng& r,std::string& what,const std::string& ext);  // corrupt a file
}
