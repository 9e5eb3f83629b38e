// The real native binding (src/yencode.cc) against stand-ins for the V8/node headers; entry points are found by their exported names.
#pragma once
#include "ys.h"
#include "isa.h"
#include "yencode.cc"
static v8::Object* B_exports;
static bool B_threw;
static void bind_init(int isa) {
	isa_cpuid(isa);
	B_exports=new v8::Object(); B_exports->tag=v8::YV_OBJ;
	ys_module_init(v8::Local<v8::Object>(B_exports), v8::Local<v8::Value>(), v8::Local<v8::Context>());
}
// from here on no call may write to anything that exists already
static void bind_share() { ys_shared_exempt(&B_exports); ys_shared_exempt(&B_threw); ys_shared_exempt(v8::ys_isolate()); ys_shared_ro(1); }
static void bind_again() { // the module is loaded in a further worker thread
	v8::Object* keep=B_exports; B_exports=new v8::Object(); B_exports->tag=v8::YV_OBJ;
	ys_module_init(v8::Local<v8::Object>(B_exports), v8::Local<v8::Value>(), v8::Local<v8::Context>()); (void)keep;
}
static v8::Value* bUndef() { return new v8::Value(); }
static v8::Value* bNum(int64_t n) { v8::Value* v=new v8::Value(); v->tag=v8::YV_NUM; v->num=n; return v; }
static v8::Value* bBool(int64_t n) { v8::Value* v=new v8::Value(); v->tag=v8::YV_BOOL; v->num=n; return v; }
static v8::Value* bBuf(uint8_t* p, size_t n) { v8::Value* v=new v8::Value(); v->tag=v8::YV_BUF; v->data=p; v->len=n; return v; }
static v8::Value* bAlloc(size_t n, size_t off, const char* name) { return bBuf((uint8_t*)ys_alloc(n,64,off,name),n); }
static v8::Value* bCrc(uint32_t c) { v8::Value* v=bAlloc(4,0,"crc buffer"); v->data[0]=c>>24; v->data[1]=c>>16; v->data[2]=c>>8; v->data[3]=c; return v; }
static uint32_t rdCrc(v8::Value* v) { return (uint32_t)v->data[0]<<24 | (uint32_t)v->data[1]<<16 | (uint32_t)v->data[2]<<8 | v->data[3]; }
static bool isCrc(v8::Value* v) { return v && v->tag==v8::YV_BUF && v->len==4; }
static v8::Value* bCall(const char* name, int argc, v8::Value* a0=0, v8::Value* a1=0, v8::Value* a2=0, v8::Value* a3=0) {
	v8::FunctionCallbackInfo<v8::Value> ci; ci.argc=argc; ci.argv[0]=a0; ci.argv[1]=a1; ci.argv[2]=a2; ci.argv[3]=a3;
	v8::ys_isolate()->thrown=0;
	v8::Value* f=B_exports->get(name);
	ys_assert(f!=0,"binding does not export a function this package relies on");
	f->fn(ci);
	B_threw = v8::ys_isolate()->thrown!=0;
	if(B_threw) return 0;
	return ci.ret ? ci.ret : bUndef();
}
