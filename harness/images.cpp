#include "images.hpp"
#include <csetjmp>
#include <cstdio>
#include <jpeglib.h>
#include <png.h>
#include <tiffio.h>
namespace hx {
const std::vector<const char*> EXTS={"ppm","bmp","tga","png","jpg","tif","tiff","jpeg"};
static void p16(std::string& s,u32 v){ s+=(char)(v&255); s+=(char)(v>>8&255); } static void p32(std::string& s,u32 v){ p16(s,v&0xffff); p16(s,v>>16); }
static u32 g16(const std::string& s,size_t o){ return (u8)s[o]|(u8)s[o+1]<<8; } static u32 g32(const std::string& s,size_t o){ return g16(s,o)|g16(s,o+2)<<16; }
Pic make_pic(Rng& r,int w,int h,int style,bool alpha){
  Pic p; p.w=w; p.h=h; p.v.resize((size_t)w*h); u32 pal[4]; for(auto&x:pal) x=(u32)r.next(); int a=(int)r.below(200),b=(int)r.below(200),c=(int)r.below(200);
  for(int y=0;y<h;y++) for(int x=0;x<w;x++){ u32 v; if(style==0) v=(u32)r.next(); else if(style==1) v=bgra(std::min(255,a+x/2),std::min(255,b+y/2),std::min(255,c+(x+y)/4),255); else v=pal[r.below(4)]; if(!alpha) v|=255; p.v[(size_t)y*w+x]=v; }
  return p;
}
std::string diff(const Pic& a,const Pic& b,int tol,bool alpha){
  char t[200]; if(a.w!=b.w||a.h!=b.h){ snprintf(t,200,"%dx%d instead of %dx%d",a.w,a.h,b.w,b.h); return t; }
  for(size_t i=0;i<a.v.size();i++) for(int k=0;k<(alpha?4:3);k++){ int d=chan(a.v[i],k)-chan(b.v[i],k); if(d<-tol||d>tol){ snprintf(t,200,"pixel (%zu,%zu) is %08x instead of %08x (0xBBGGRRAA)",i%a.w,i/a.w,a.v[i],b.v[i]); return t; } }
  return "";
}
// ---------------------------------------------------------------- bmp
static File8 enc_bmp(Rng& r,int w,int h,int style){
  File8 f; bool b32=r.below(3)==0,top=r.below(2); f.pix=make_pic(r,w,h,style,b32); int gap=r.below(3)==0?(int)r.below(20):0; int bpp=b32?4:3,pad=(4-(w*bpp)%4)%4; std::string& s=f.data;
  s="BM"; p32(s,54+gap+(w*bpp+pad)*h); p32(s,0); p32(s,54+gap); p32(s,40); p32(s,w); p32(s,top?(u32)-h:(u32)h); p16(s,1); p16(s,bpp*8); p32(s,0); p32(s,0); p32(s,2835); p32(s,2835); p32(s,0); p32(s,0); s.append(gap,'x');
  for(int i=0;i<h;i++){ int y=top?i:h-1-i; for(int x=0;x<w;x++){ u32 v=f.pix.at(x,y); s+=(char)chan(v,2); s+=(char)chan(v,1); s+=(char)chan(v,0); if(b32) s+=(char)chan(v,3); } for(int k=0;k<pad;k++) s+=(char)r.below(256); }
  f.what=std::string("bmp ")+(b32?"32":"24")+(top?" top-down":" bottom-up")+(gap?" with gap":""); return f;
}
static bool dec_bmp(const std::string& s,Pic& p,std::string& why){
  if(s.size()<54||s[0]!='B'||s[1]!='M'){ why="no BMP header"; return false; } u32 off=g32(s,10),dib=g32(s,14); int w=(int)g32(s,18),h=(int)g32(s,22); int bpp=g16(s,28); if(dib<40||g32(s,30)!=0||g16(s,26)!=1||(bpp!=24&&bpp!=32)||w<=0||h==0||off<54){ why="bad BMP header"; return false; }
  bool top=h<0; if(top) h=-h; int B=bpp/8; size_t row=((size_t)w*B+3)/4*4; if(s.size()<off+row*h){ why="BMP file too short"; return false; }
  p.w=w; p.h=h; p.v.resize((size_t)w*h); for(int i=0;i<h;i++){ int y=top?i:h-1-i; for(int x=0;x<w;x++){ size_t o=off+row*i+x*B; p.v[(size_t)y*w+x]=bgra((u8)s[o+2],(u8)s[o+1],(u8)s[o],255); } } return true;
}
// ---------------------------------------------------------------- tga
static File8 enc_tga(Rng& r,int w,int h,int style){
  File8 f; int kind=(int)r.below(3); bool rle=r.below(2),top=r.below(2); int idl=r.below(3)==0?(int)r.below(60):0; int bits=kind==0?24:kind==1?32:(r.below(2)?16:15); f.pix=make_pic(r,w,h,style,kind==1);
  if(kind==2) for(auto&v:f.pix.v) v=bgra(chan(v,0)&0xf8,chan(v,1)&0xf8,chan(v,2)&0xf8,255);
  if(rle&&r.below(2)) for(size_t i=1;i<f.pix.v.size();i++) if(r.below(4)) f.pix.v[i]=f.pix.v[i-1];   // long runs
  std::string& s=f.data; s+=(char)idl; s+='\0'; s+=(char)(rle?10:2); s.append(5,'\0'); p16(s,0); p16(s,0); p16(s,w); p16(s,h); s+=(char)bits; s+=(char)((top?0x20:0)|(kind==1?8:kind==2&&bits==16?1:0)); for(int i=0;i<idl;i++) s+=(char)r.below(256);
  std::vector<u32> o; for(int i=0;i<h;i++){ int y=top?i:h-1-i; for(int x=0;x<w;x++) o.push_back(f.pix.at(x,y)); }
  auto px=[&](u32 v){ if(kind==2){ u32 q=(chan(v,0)>>3)<<10|(chan(v,1)>>3)<<5|(chan(v,2)>>3); p16(s,q); } else { s+=(char)chan(v,2); s+=(char)chan(v,1); s+=(char)chan(v,0); if(kind==1) s+=(char)chan(v,3); } };
  bool cross=r.below(2); // packets may or may not cross scan lines
  if(!rle) for(u32 v:o) px(v); else for(size_t i=0;i<o.size();){ size_t lim=std::min<size_t>(128,cross?o.size()-i:(size_t)w-i%w); size_t n=1; while(n<lim&&o[i+n]==o[i]) n++; if(n>1||r.below(4)==0){ s+=(char)(0x80|(n-1)); px(o[i]); i+=n; } else { n=1; while(n<lim&&(i+n+1>=o.size()||o[i+n]!=o[i+n+1])&&r.below(30)) n++; s+=(char)(n-1); for(size_t k=0;k<n;k++) px(o[i+k]); i+=n; } }
  if(r.below(3)==0){ s.append(8,'\0'); s+="TRUEVISION-XFILE."; s+='\0'; }
  char t[100]; snprintf(t,100,"tga %d%s%s%s",bits,rle?" rle":"",top?" top-down":" bottom-up",idl?" with id":""); f.what=t; if(kind==2) f.tol=8; return f;
}
static bool dec_tga(const std::string& s,Pic& p,std::string& why){
  if(s.size()<18||s[1]!=0||(s[2]!=2)){ why="no TGA header"; return false; } int w=g16(s,12),h=g16(s,14),bits=(u8)s[16]; bool top=s[17]&0x20; size_t off=18+(u8)s[0]; int B=bits/8; if((bits!=24&&bits!=32)||!w||!h){ why="bad TGA header"; return false; } if(s.size()<off+(size_t)w*h*B){ why="TGA file too short"; return false; }
  p.w=w; p.h=h; p.v.resize((size_t)w*h); for(int i=0;i<h;i++){ int y=top?i:h-1-i; for(int x=0;x<w;x++){ size_t o=off+((size_t)i*w+x)*B; p.v[(size_t)y*w+x]=bgra((u8)s[o+2],(u8)s[o+1],(u8)s[o],255); } } return true;
}
// ---------------------------------------------------------------- ppm
static File8 enc_ppm(Rng& r,int w,int h,int style){
  File8 f; bool asc=r.below(3)==0; int kind=(int)r.below(4); int maxv=kind<2?255:kind==2?1+(int)r.below(255):256+(int)r.below(65280); f.pix=make_pic(r,w,h,style,false); char t[100]; auto ws=[&]{ static const char* W[]={" ","\n","\t"," \n"}; return std::string(W[r.below(4)]); };
  f.data=asc?"P3":"P6"; snprintf(t,100,"%d",w); f.data+=ws()+t; snprintf(t,100,"%d",h); f.data+=ws()+t; snprintf(t,100,"%d",maxv); f.data+=ws()+t; f.data+=r.below(2)?"\n":" ";
  for(auto&v:f.pix.v){ int c[3]; for(int k=0;k<3;k++){ int q=maxv==255?chan(v,k):(int)r.below(maxv+1); c[k]=(int)((double)q/maxv*255); if(asc){ snprintf(t,100,"%d",q); f.data+=t; f.data+=r.below(8)?" ":"\n"; } else if(maxv<256) f.data+=(char)q; else { f.data+=(char)(q>>8); f.data+=(char)q; } } v=bgra(c[0],c[1],c[2],255); }
  if(maxv!=255) f.tol=1; snprintf(t,100,"ppm %s max %d",asc?"P3":"P6",maxv); f.what=t; return f;
}
// ---------------------------------------------------------------- jpg
struct JE { jpeg_error_mgr m; jmp_buf j; }; static void jx(j_common_ptr c){ longjmp(((JE*)c->err)->j,1); } static void jm(j_common_ptr){}
static bool dec_jpg(const std::string& s,Pic& p,std::string& why,bool ycc=false){
  jpeg_decompress_struct c; JE e; memset(&c,0,sizeof c); c.err=jpeg_std_error(&e.m); e.m.error_exit=jx; e.m.output_message=jm; std::vector<u8> row; bool ok=false;
  if(!setjmp(e.j)){ jpeg_create_decompress(&c); jpeg_mem_src(&c,(const unsigned char*)s.data(),s.size()); jpeg_read_header(&c,TRUE); c.out_color_space=JCS_RGB; jpeg_start_decompress(&c); p.w=c.output_width; p.h=c.output_height; p.v.resize((size_t)p.w*p.h); row.resize((size_t)p.w*3); JSAMPROW q=row.data(); while(c.output_scanline<c.output_height){ int y=c.output_scanline; jpeg_read_scanlines(&c,&q,1); for(int x=0;x<p.w;x++) p.v[(size_t)y*p.w+x]=bgra(row[x*3],row[x*3+1],row[x*3+2],255); } jpeg_finish_decompress(&c); ok=e.m.num_warnings==0; if(!ok) why="JPEG data damaged or cut"; } else { char b[JMSG_LENGTH_MAX]; e.m.format_message((j_common_ptr)&c,b); why=std::string("JPEG: ")+b; }
  jpeg_destroy_decompress(&c); return ok;
}
static File8 enc_jpg(Rng& r,int w,int h,int style){
  File8 f; bool gray=r.below(4)==0,prog=r.below(3)==0; int q=40+(int)r.below(61); Pic p=make_pic(r,w,h,style,false); jpeg_compress_struct c; jpeg_error_mgr m; memset(&c,0,sizeof c); c.err=jpeg_std_error(&m); jpeg_create_compress(&c); unsigned char* out=nullptr; unsigned long n=0; jpeg_mem_dest(&c,&out,&n); c.image_width=w; c.image_height=h; c.input_components=gray?1:3; c.in_color_space=gray?JCS_GRAYSCALE:JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c,q,TRUE); if(prog) jpeg_simple_progression(&c); if(r.below(3)==0) c.restart_interval=1+r.below(8); jpeg_start_compress(&c,TRUE); std::vector<u8> row((size_t)w*3); JSAMPROW pr=row.data(); for(int y=0;y<h;y++){ for(int x=0;x<w;x++) if(gray) row[x]=chan(p.at(x,y),0); else for(int k=0;k<3;k++) row[x*3+k]=chan(p.at(x,y),k); jpeg_write_scanlines(&c,&pr,1); } jpeg_finish_compress(&c); f.data.assign((char*)out,n); free(out); jpeg_destroy_compress(&c);
  std::string why; if(!dec_jpg(f.data,f.pix,why)) harness_error("jpeg self check: %s",why.c_str()); f.tol=4; char t[100]; snprintf(t,100,"jpg%s%s q%d",gray?" gray":"",prog?" progressive":"",q); f.what=t; return f;
}
// ---------------------------------------------------------------- png
static void pw(png_structp s,png_bytep d,png_size_t n){ ((std::string*)png_get_io_ptr(s))->append((char*)d,n); } static void pfl(png_structp){}
struct PR { const std::string* s; size_t o; }; static void prd(png_structp s,png_bytep d,png_size_t n){ PR* p=(PR*)png_get_io_ptr(s); if(p->o+n>p->s->size()) png_error(s,"end of file"); memcpy(d,p->s->data()+p->o,n); p->o+=n; }
static void perr(png_structp s,png_const_charp){ longjmp(png_jmpbuf(s),1); } static void pwarn(png_structp,png_const_charp){}
static File8 enc_png(Rng& r,int w,int h,int style){
  File8 f; static const int T[]={PNG_COLOR_TYPE_RGB,PNG_COLOR_TYPE_RGBA,PNG_COLOR_TYPE_GRAY,PNG_COLOR_TYPE_GRAY_ALPHA,PNG_COLOR_TYPE_PALETTE}; int ct=T[r.below(5)]; int bd=8; if(ct==PNG_COLOR_TYPE_PALETTE){ static const int B[]={8,4,2,1}; bd=B[r.below(4)]; } else if(ct==PNG_COLOR_TYPE_GRAY){ static const int B[]={8,4,2,1,16}; bd=B[r.below(5)]; } else bd=r.below(3)==0?16:8; bool inter=r.below(3)==0; bool trns=(ct==PNG_COLOR_TYPE_PALETTE)&&r.below(2);
  f.pix=make_pic(r,w,h,style,true); int np=ct==PNG_COLOR_TYPE_PALETTE?1+(int)r.below(1<<bd):0; png_color pal[256]; png_byte ta[256]; for(int i=0;i<np;i++){ pal[i].red=r.below(256); pal[i].green=r.below(256); pal[i].blue=r.below(256); ta[i]=r.below(256); }
  png_structp s=png_create_write_struct(PNG_LIBPNG_VER_STRING,nullptr,perr,pwarn); png_infop in=png_create_info_struct(s); if(setjmp(png_jmpbuf(s))) harness_error("png encoder failed"); png_set_write_fn(s,&f.data,pw,pfl); png_set_IHDR(s,in,w,h,bd,ct,inter?PNG_INTERLACE_ADAM7:PNG_INTERLACE_NONE,PNG_COMPRESSION_TYPE_DEFAULT,PNG_FILTER_TYPE_DEFAULT); if(np) png_set_PLTE(s,in,pal,np); if(trns) png_set_tRNS(s,in,ta,np,nullptr);
  if(r.below(3)==0){ png_text t; memset(&t,0,sizeof t); t.compression=PNG_TEXT_COMPRESSION_NONE; t.key=(char*)"Comment"; t.text=(char*)"something"; png_set_text(s,in,&t,1); }
  png_write_info(s,in); size_t rb=png_get_rowbytes(s,in); std::vector<u8> img(rb*h); std::vector<png_bytep> rows(h); int mx=(1<<std::min(bd,8))-1;
  for(int y=0;y<h;y++){ rows[y]=&img[rb*y]; u8* q=rows[y]; auto put=[&](int i,int v){ if(bd==8) q[i]=v; else if(bd==16){ q[i*2]=v; q[i*2+1]=r.below(256); } else { int per=8/bd; q[i/per]|=v<<((per-1-i%per)*bd); } };
    for(int x=0;x<w;x++){ u32& v=f.pix.v[(size_t)y*w+x]; switch(ct){ case PNG_COLOR_TYPE_RGB: v|=255; for(int k=0;k<3;k++) put(x*3+k,chan(v,k)); break; case PNG_COLOR_TYPE_RGBA: for(int k=0;k<4;k++) put(x*4+k,chan(v,k)); break;
      case PNG_COLOR_TYPE_GRAY: { int g=chan(v,0)&mx; put(x,g); int e=bd>=8?g:g*255/mx; v=bgra(e,e,e,255); break; } case PNG_COLOR_TYPE_GRAY_ALPHA: { int g=chan(v,0),a=chan(v,3); put(x*2,g); put(x*2+1,a); v=bgra(g,g,g,a); break; } default: { int i=(int)(v%np); put(x,i); v=bgra(pal[i].red,pal[i].green,pal[i].blue,trns?ta[i]:255); } } } }
  png_write_image(s,rows.data()); png_write_end(s,in); png_destroy_write_struct(&s,&in); if(bd==16) f.tol=1; char t[100]; snprintf(t,100,"png type %d depth %d%s%s",ct,bd,inter?" interlaced":"",trns?" tRNS":""); f.what=t; return f;
}
static bool dec_png(const std::string& d,Pic& p,std::string& why){
  if(d.size()<8||png_sig_cmp((png_const_bytep)d.data(),0,8)){ why="no PNG signature"; return false; } PR pr{&d,0}; png_structp s=png_create_read_struct(PNG_LIBPNG_VER_STRING,nullptr,perr,pwarn); png_infop in=png_create_info_struct(s); std::vector<u8> img; std::vector<png_bytep> rows; if(setjmp(png_jmpbuf(s))){ png_destroy_read_struct(&s,&in,nullptr); why="PNG damaged or cut"; return false; }
  png_set_read_fn(s,&pr,prd); png_read_info(s,in); p.w=png_get_image_width(s,in); p.h=png_get_image_height(s,in); if((long long)p.w*p.h>(1<<24)){ png_destroy_read_struct(&s,&in,nullptr); why="PNG dimensions"; return false; } png_set_strip_16(s); png_set_expand(s); png_set_gray_to_rgb(s); png_set_add_alpha(s,255,PNG_FILLER_AFTER); png_read_update_info(s,in); size_t rb=png_get_rowbytes(s,in); img.resize(rb*p.h); rows.resize(p.h); for(int y=0;y<p.h;y++) rows[y]=&img[rb*y]; png_read_image(s,rows.data()); png_read_end(s,in); png_destroy_read_struct(&s,&in,nullptr);
  p.v.resize((size_t)p.w*p.h); for(int y=0;y<p.h;y++) for(int x=0;x<p.w;x++){ u8* q=rows[y]+x*4; p.v[(size_t)y*p.w+x]=bgra(q[0],q[1],q[2],q[3]); } return true;
}
// ---------------------------------------------------------------- tiff
struct TM { std::string s; size_t o=0; };
static tmsize_t tr(thandle_t h,void* b,tmsize_t n){ TM* m=(TM*)h; if(m->o>=m->s.size()) return 0; size_t k=std::min<size_t>(n,m->s.size()-m->o); memcpy(b,m->s.data()+m->o,k); m->o+=k; return k; }
static tmsize_t tw(thandle_t h,void* b,tmsize_t n){ TM* m=(TM*)h; if(m->s.size()<m->o+n) m->s.resize(m->o+n); memcpy(&m->s[m->o],b,n); m->o+=n; return n; }
static toff_t ts(thandle_t h,toff_t o,int w){ TM* m=(TM*)h; m->o=w==SEEK_SET?o:w==SEEK_CUR?m->o+o:m->s.size()+o; return m->o; } static int tc(thandle_t){ return 0; } static toff_t tz(thandle_t h){ return ((TM*)h)->s.size(); } static int tmap(thandle_t,void**,toff_t*){ return 0; } static void tun(thandle_t,void*,toff_t){}
static bool dec_tif(const std::string& d,Pic& p,std::string& why);
static File8 enc_tif(Rng& r,int w,int h,int style){
  TIFFSetWarningHandler(nullptr); TIFFSetErrorHandler(nullptr);
  File8 f; f.pix=make_pic(r,w,h,style,false); bool rgba=r.below(3)==0,sep=r.below(4)==0,tile=r.below(4)==0; static const int C[]={COMPRESSION_NONE,COMPRESSION_LZW,COMPRESSION_PACKBITS,COMPRESSION_ADOBE_DEFLATE}; int comp=C[r.below(4)]; if(tile&&comp==COMPRESSION_NONE) comp=COMPRESSION_PACKBITS; TM m; TIFF* t=TIFFClientOpen("mem",r.below(2)?"wl":"wb",(thandle_t)&m,tr,tw,ts,tc,tz,tmap,tun); if(!t) harness_error("tiff encoder"); int ch=rgba?4:3;
  TIFFSetField(t,TIFFTAG_IMAGEWIDTH,w); TIFFSetField(t,TIFFTAG_IMAGELENGTH,h); TIFFSetField(t,TIFFTAG_SAMPLESPERPIXEL,ch); TIFFSetField(t,TIFFTAG_BITSPERSAMPLE,8); TIFFSetField(t,TIFFTAG_ORIENTATION,ORIENTATION_TOPLEFT); TIFFSetField(t,TIFFTAG_PLANARCONFIG,sep?PLANARCONFIG_SEPARATE:PLANARCONFIG_CONTIG); TIFFSetField(t,TIFFTAG_PHOTOMETRIC,PHOTOMETRIC_RGB); TIFFSetField(t,TIFFTAG_COMPRESSION,comp); if(rgba){ uint16_t e=EXTRASAMPLE_UNASSALPHA; TIFFSetField(t,TIFFTAG_EXTRASAMPLES,1,&e); }
  if(tile){ TIFFSetField(t,TIFFTAG_TILEWIDTH,16); TIFFSetField(t,TIFFTAG_TILELENGTH,16); } else TIFFSetField(t,TIFFTAG_ROWSPERSTRIP,1+(int)r.below(h));
  auto val=[&](int x,int y,int k)->u8{ return x<w&&y<h?chan(f.pix.at(x,y),k):0; };
  if(tile){ std::vector<u8> b(16*16*(sep?1:ch)); for(int s=0;s<(sep?ch:1);s++) for(int ty=0;ty<h;ty+=16) for(int tx=0;tx<w;tx+=16){ for(int y=0;y<16;y++) for(int x=0;x<16;x++) if(sep) b[y*16+x]=val(tx+x,ty+y,s); else for(int k=0;k<ch;k++) b[(y*16+x)*ch+k]=val(tx+x,ty+y,k); TIFFWriteTile(t,b.data(),tx,ty,0,s); } }
  else { std::vector<u8> b((size_t)w*ch); for(int s=0;s<(sep?ch:1);s++) for(int y=0;y<h;y++){ for(int x=0;x<w;x++) if(sep) b[x]=val(x,y,s); else for(int k=0;k<ch;k++) b[x*ch+k]=val(x,y,k); TIFFWriteScanline(t,b.data(),y,s); } }
  TIFFClose(t); f.data=m.s; char q[100]; snprintf(q,100,"tiff %d channels compression %d%s%s",ch,comp,sep?" planar":"",tile?" tiled":""); f.what=q; { Pic p; std::string why; if(!dec_tif(f.data,p,why)) harness_error("tiff self check: %s: %s %dx%d",q,why.c_str(),w,h); } return f;
}
static bool dec_tif(const std::string& d,Pic& p,std::string& why){
  TIFFSetWarningHandler(nullptr); TIFFSetErrorHandler(nullptr); TM m; m.s=d; TIFF* t=TIFFClientOpen("mem","r",(thandle_t)&m,tr,tw,ts,tc,tz,tmap,tun); if(!t){ why="no TIFF header or directory"; return false; } int w=0,h=0; bool ok=TIFFGetField(t,TIFFTAG_IMAGEWIDTH,&w)&&TIFFGetField(t,TIFFTAG_IMAGELENGTH,&h)&&w>0&&h>0&&(long long)w*h<(1<<24); if(!ok){ why="TIFF dimensions"; TIFFClose(t); return false; }
  std::vector<u32> v((size_t)w*h); ok=TIFFReadRGBAImageOriented(t,w,h,v.data(),ORIENTATION_TOPLEFT,1); TIFFClose(t); if(!ok){ why="TIFF pixels damaged or cut"; return false; } p.w=w; p.h=h; p.v.resize(v.size()); for(size_t i=0;i<v.size();i++) p.v[i]=bgra(TIFFGetR(v[i]),TIFFGetG(v[i]),TIFFGetB(v[i]),255); return true;
}
// ---------------------------------------------------------------- variants that need not be supported
static File8 rare_bmp(Rng& r,int w,int h,int style){ // palettes, 16 bit, run length encoding
  File8 f; f.optional=true; static const int B[]={8,4,1,16,8}; int k=(int)r.below(5),bits=B[k]; bool rle=k==4,top=!rle&&r.below(2); f.pix=make_pic(r,w,h,style,false); std::string& s=f.data,px; int np=bits<=8?1<<bits:0; std::vector<u32> pal(np); for(auto&q:pal) q=(u32)r.next()|255;
  std::vector<int> ix((size_t)w*h); for(size_t i=0;i<ix.size();i++){ u32& v=f.pix.v[i]; if(np){ ix[i]=(int)(v>>9)%np; v=pal[ix[i]]; } else { int c[3]; for(int q=0;q<3;q++) c[q]=chan(v,q)>>3; ix[i]=c[0]<<10|c[1]<<5|c[2]; v=bgra(c[0]*8,c[1]*8,c[2]*8,255); f.tol=8; } }
  for(int i=0;i<h;i++){ int y=top?i:h-1-i; const int* q=&ix[(size_t)y*w]; size_t st=px.size(); if(rle){ for(int x=0;x<w;){ int n=1; while(x+n<w&&n<255&&q[x+n]==q[x]) n++; px+=(char)n; px+=(char)q[x]; x+=n; } px+='\0'; px+=(char)(i==h-1?1:0); continue; }
    if(bits==16) for(int x=0;x<w;x++) p16(px,ix[(size_t)y*w+x]); else for(int x=0;x<w;x+=8/bits){ int v=0; for(int j=0;j<8/bits;j++) v=v<<bits|(x+j<w?q[x+j]:0); px+=(char)v; } while((px.size()-st)%4) px+='\0'; }
  int colours=np&&r.below(2)?0:np; u32 off=54+np*4; s="BM"; p32(s,off+(u32)px.size()); p32(s,0); p32(s,off); p32(s,40); p32(s,w); p32(s,top?(u32)-h:(u32)h); p16(s,1); p16(s,bits); p32(s,rle?1:0); p32(s,(u32)px.size()); p32(s,2835); p32(s,2835); p32(s,colours); p32(s,0); for(u32 q:pal){ s+=(char)chan(q,2); s+=(char)chan(q,1); s+=(char)chan(q,0); s+='\0'; } s+=px;
  char t[80]; snprintf(t,80,"bmp %d bit%s%s",bits,rle?" rle8":np?" palette":"",top?" top-down":""); f.what=t; return f;
}
static File8 rare_tga(Rng& r,int w,int h,int style){ // palette and gray, right-to-left
  File8 f; f.optional=true; int k=(int)r.below(5); bool top=r.below(2); f.pix=make_pic(r,w,h,style,false); std::string& s=f.data; auto head=[&](int cm,int type,int cmlen,int bits,int desc){ s+='\0'; s+=(char)cm; s+=(char)type; p16(s,0); p16(s,cmlen); s+=(char)(cm?24:0); p16(s,0); p16(s,0); p16(s,w); p16(s,h); s+=(char)bits; s+=(char)(desc|(top?0x20:0)); };
  auto row=[&](int i){ return top?i:h-1-i; }; bool rle=k>=2&&k<4; const char* n="";
  if(k==0||k==2){ n="palette"; u32 pal[256]; for(auto&q:pal) q=(u32)r.next()|255; head(1,rle?9:1,256,8,0); for(u32 q:pal){ s+=(char)chan(q,2); s+=(char)chan(q,1); s+=(char)chan(q,0); } for(int i=0;i<h;i++) for(int x=0;x<w;x++){ u32& v=f.pix.v[(size_t)row(i)*w+x]; int q=v>>24; v=pal[q]; if(rle) s+='\x80'; s+=(char)q; } }
  else if(k==1||k==3){ n="gray"; head(0,rle?11:3,0,8,0); for(int i=0;i<h;i++) for(int x=0;x<w;x++){ u32& v=f.pix.v[(size_t)row(i)*w+x]; int q=v>>24; v=bgra(q,q,q,255); if(rle) s+='\x80'; s+=(char)q; } }
  else { n="right-to-left"; head(0,2,0,24,0x10); for(int i=0;i<h;i++) for(int x=w-1;x>=0;x--){ u32 v=f.pix.v[(size_t)row(i)*w+x]; s+=(char)chan(v,2); s+=(char)chan(v,1); s+=(char)chan(v,0); } }
  char t[80]; snprintf(t,80,"tga %s%s",n,rle?" rle":""); f.what=t; return f;
}
static File8 rare_ppm(Rng& r,int w,int h,int style){ // gray, bitmaps, comments
  File8 f; f.optional=true; f.pix=make_pic(r,w,h,style,false); char t[100]; int k=(int)r.below(4);
  if(k<2){ snprintf(t,100,"P%d\n%d %d\n255\n",k?5:2,w,h); f.data=t; for(u32& v:f.pix.v){ int g=chan(v,0); v=bgra(g,g,g,255); if(k) f.data+=(char)g; else { snprintf(t,100,"%d ",g); f.data+=t; } } f.what=k?"ppm P5":"ppm P2"; }
  else if(k==2){ snprintf(t,100,"P6\n# a comment 1 2 3\n%d %d\n255\n",w,h); f.data=t; for(u32 v:f.pix.v) for(int q=0;q<3;q++) f.data+=(char)chan(v,q); f.what="ppm with a comment"; }
  else { snprintf(t,100,"P1\n%d %d\n",w,h); f.data=t; for(u32& v:f.pix.v){ int b=v>>31; f.data+=b?"1 ":"0 "; int g=b?0:255; v=bgra(g,g,g,255); } f.what="ppm P1"; }
  return f;
}
static File8 rare_jpg(Rng& r,int w,int h){ // CMYK
  File8 f; f.optional=true; f.pix.w=w; f.pix.h=h; jpeg_compress_struct c; jpeg_error_mgr m; memset(&c,0,sizeof c); c.err=jpeg_std_error(&m); jpeg_create_compress(&c); unsigned char* out=nullptr; unsigned long n=0; jpeg_mem_dest(&c,&out,&n); c.image_width=w; c.image_height=h; c.input_components=4; c.in_color_space=JCS_CMYK; jpeg_set_defaults(&c); if(r.below(2)) jpeg_set_colorspace(&c,JCS_YCCK); jpeg_start_compress(&c,TRUE); std::vector<u8> row((size_t)w*4); JSAMPROW pr=row.data(); for(int y=0;y<h;y++){ for(auto&x:row) x=(u8)r.next(); jpeg_write_scanlines(&c,&pr,1); } jpeg_finish_compress(&c); f.data.assign((char*)out,n); free(out); jpeg_destroy_compress(&c); f.tol=256; f.what="jpg cmyk"; f.pix.v.resize((size_t)w*h); return f;
}
static File8 rare_tif(Rng& r,int w,int h,int style){ // gray, 16 bit, palette, bottom-up
  TIFFSetWarningHandler(nullptr); TIFFSetErrorHandler(nullptr); File8 f; f.optional=true; f.pix=make_pic(r,w,h,style,false); int k=(int)r.below(4); TM m; TIFF* t=TIFFClientOpen("mem","w",(thandle_t)&m,tr,tw,ts,tc,tz,tmap,tun); if(!t) harness_error("tiff encoder"); int ch=k==1||k==3?3:1,bits=k==1?16:8;
  TIFFSetField(t,TIFFTAG_IMAGEWIDTH,w); TIFFSetField(t,TIFFTAG_IMAGELENGTH,h); TIFFSetField(t,TIFFTAG_SAMPLESPERPIXEL,ch); TIFFSetField(t,TIFFTAG_BITSPERSAMPLE,bits); TIFFSetField(t,TIFFTAG_ORIENTATION,k==3?ORIENTATION_BOTLEFT:ORIENTATION_TOPLEFT); TIFFSetField(t,TIFFTAG_PLANARCONFIG,PLANARCONFIG_CONTIG); TIFFSetField(t,TIFFTAG_PHOTOMETRIC,k==0?PHOTOMETRIC_MINISBLACK:k==2?PHOTOMETRIC_PALETTE:PHOTOMETRIC_RGB); TIFFSetField(t,TIFFTAG_ROWSPERSTRIP,h); std::vector<uint16_t> c[3]; if(k==2){ for(auto&q:c){ q.resize(256); for(auto&z:q) z=(uint16_t)(257*r.below(256)); } TIFFSetField(t,TIFFTAG_COLORMAP,c[0].data(),c[1].data(),c[2].data()); }
  std::vector<u8> b((size_t)w*ch*2); for(int y=0;y<h;y++){ for(int x=0;x<w;x++){ u32& v=f.pix.v[(size_t)(k==3?h-1-y:y)*w+x]; if(k==0){ int g=chan(v,0); b[x]=g; v=bgra(g,g,g,255); } else if(k==2){ int g=chan(v,0); b[x]=g; v=bgra(c[0][g]>>8,c[1][g]>>8,c[2][g]>>8,255); } else for(int q=0;q<3;q++) if(bits==16){ b[(x*3+q)*2]=b[(x*3+q)*2+1]=chan(v,q); } else b[x*3+q]=chan(v,q); } TIFFWriteScanline(t,b.data(),y,0); }
  TIFFClose(t); f.data=m.s; if(k==1) f.tol=1; static const char* N[]={"tiff gray","tiff 16 bit","tiff palette","tiff bottom-up"}; f.what=N[k]; return f;
}
File8 encode_rare(const std::string& ext,Rng& r,int w,int h,int style){ Harness hh; if(ext=="bmp") return rare_bmp(r,w,h,style); if(ext=="tga") return rare_tga(r,w,h,style); if(ext=="ppm") return rare_ppm(r,w,h,style); if(ext=="jpg"||ext=="jpeg") return rare_jpg(r,w,h); if(ext=="png") return enc_png(r,w,h,style); return rare_tif(r,w,h,style); }
File8 encode_any(const std::string& ext,Rng& r,int w,int h,int style){ Harness hh; if(ext=="bmp") return enc_bmp(r,w,h,style); if(ext=="tga") return enc_tga(r,w,h,style); if(ext=="ppm") return enc_ppm(r,w,h,style); if(ext=="png") return enc_png(r,w,h,style); if(ext=="jpg"||ext=="jpeg") return enc_jpg(r,w,h,style); return enc_tif(r,w,h,style); }
bool decode_any(const std::string& ext,const std::string& d,Pic& p,std::string& why){ Harness hh; if(ext=="bmp") return dec_bmp(d,p,why); if(ext=="tga") return dec_tga(d,p,why); if(ext=="png") return dec_png(d,p,why); if(ext=="jpg"||ext=="jpeg") return dec_jpg(d,p,why); if(ext=="tif"||ext=="tiff") return dec_tif(d,p,why);
  Img im=decode_ppm(d); if(!im.ok){ why="PPM: "+im.why; return false; } p.w=im.w; p.h=im.h; p.v.resize((size_t)im.w*im.h); for(size_t i=0;i<p.v.size();i++) p.v[i]=bgra(im.rgb[i*3],im.rgb[i*3+1],im.rgb[i*3+2],255); return true; }
std::string damage(const std::string& d,Rng& r,std::string& what,const std::string& ext){
  Harness hh; std::string s=d; char t[120]; auto note=[&](const char* k,size_t a){ snprintf(t,120," %s@%zu",k,a); if(what.size()<300) what+=t; }; int n=1+(int)r.below(4);
  for(int i=0;i<n;i++){ size_t sz=s.size(); size_t hd=std::min<size_t>(sz,ext=="png"?60:ext=="jpg"||ext=="jpeg"?400:64); size_t p=sz?(r.below(3)?r.below(std::max<size_t>(1,hd)):r.below(sz)):0; if((ext=="tif"||ext=="tiff")&&sz>200&&r.below(2)) p=sz-1-r.below(200);
    switch(r.below(9)){ case 0: s.resize(r.below(sz+1)); note("cut",s.size()); break; case 1: if(sz){ s[p]=(char)r.next(); note("byte",p); } break; case 2: if(sz){ s[p]^=(char)(1<<r.below(8)); note("bit",p); } break; case 3: if(sz){ static const u8 V[]={0,255,127,128,1}; u8 v=V[r.below(5)]; size_t k=1+r.below(4); for(size_t j=p;j<std::min(sz,p+k);j++) s[j]=(char)v; note("fill",p); } break;
      case 4: if(sz){ size_t k=1+r.below(16); s.erase(p,k); note("erase",p); } break; case 5: { std::string x; size_t k=1+r.below(16); for(size_t j=0;j<k;j++) x+=(char)r.next(); s.insert(std::min(p,s.size()),x); note("insert",p); } break; case 6: if(sz){ size_t k=1+r.below(std::min<size_t>(sz,64)),q=r.below(sz); std::string x=s.substr(q,k); s.replace(p,std::min(x.size(),sz-p),x); note("copy",p); } break; case 7: if(sz>4){ // numbers in text headers, words in binary ones
          if(ext=="ppm"&&r.below(2)){ static const char* N[]={"-1","0","2147483647","4294967297","99999999999","65536"}; s.insert(std::min<size_t>(p%12,sz),N[r.below(6)]); } else { static const u32 V[]={0,1,0x7fffffff,0x80000000u,0xffffffffu,0x10000,0xffff,0x8000,8,16,48,64}; u32 v=V[r.below(12)]; int wl_=v<256&&r.below(2)?1+(int)r.below(2):4; for(int j=0;j<wl_&&p+j<sz;j++) s[p+j]=(char)(v>>(8*j)); } note("word",p); } break; default: s.append(1+r.below(100),(char)r.next()); note("tail",sz); } }
  return s;
}
}
