#pragma once
#include "v8.h"
#include "node_version.h"
#include "node_buffer.h"
namespace node { template<class T> inline void SetMethodStub(v8::Local<T> o, const char* name, v8::FunctionCallback f) { v8::Object* p=new v8::Object(); p->tag=v8::YV_FUNC; p->fn=f; static_cast<v8::Object*>(o.p)->put(name,p); } }
#define NODE_SET_METHOD(o,n,f) node::SetMethodStub(o,n,f)
namespace node { template<class T> inline void SetMethod(v8::Local<T> o, const char* name, v8::FunctionCallback f) { SetMethodStub(o,name,f); } }
#define NODE_MODULE_INIT() void ys_module_init(v8::Local<v8::Object> exports, v8::Local<v8::Value> module, v8::Local<v8::Context> context)
