#pragma once
#include "v8.h"
#include "ys.h"
namespace node { namespace Buffer {
typedef void (*FreeCallback)(char*, void*);
inline bool HasInstance(v8::Local<v8::Value> v) { return v.p && v->tag==v8::YV_BUF; }
inline bool HasInstance(v8::Local<v8::Object> v) { return v.p && v->tag==v8::YV_BUF; }
template<class T> inline size_t Length(v8::Local<T> v) { ys_assert(v->tag==v8::YV_BUF,"C16: the length of something that is not a Buffer is taken"); return v->len; }
template<class T> inline char* Data(v8::Local<T> v) { ys_assert(v->tag==v8::YV_BUF,"C16: the data of something that is not a Buffer is taken"); return (char*)v->data; }
inline v8::MaybeLocal<v8::Object> New(v8::Isolate*, char* d, size_t n, FreeCallback cb, void* hint) { ys_assert(d!=0 || !cb,"C16: a Buffer is made of no memory, which Node detaches: it cannot be used"); v8::Object* o=new v8::Object(); o->tag=v8::YV_BUF; o->data=(uint8_t*)d; o->len=n; o->freecb=cb; o->hint=hint; return v8::MaybeLocal<v8::Object>(v8::Local<v8::Object>(o)); }
inline v8::MaybeLocal<v8::Object> New(v8::Isolate*, char* d, size_t n) { return New((v8::Isolate*)0,d,n,(FreeCallback)0,(void*)0); }
inline v8::MaybeLocal<v8::Object> New(v8::Isolate* i, size_t n) { return New(i,(char*)malloc(n),n,(FreeCallback)0,(void*)0); }
inline v8::MaybeLocal<v8::Object> Copy(v8::Isolate* i, const char* d, size_t n) { char* p=(char*)malloc(n); for(size_t k=0;k<n;k++) p[k]=d[k]; return New(i,p,n,(FreeCallback)0,(void*)0); }
} }
