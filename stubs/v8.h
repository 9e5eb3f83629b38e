// Minimal stand-in for the parts of the V8 API a native add-on of this kind uses; values are plain tagged structs.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <new>
#include "ys.h"
namespace v8 {
class Isolate; class Context; class Value; class Object; class String; class Integer; class Number; class Boolean; class Function; class Primitive; class Uint8Array; class ArrayBuffer;
template<class T> class Local {
public:
	T* p; Local(): p(0) {} explicit Local(T* q): p(q) {} template<class S> Local(const Local<S>& o): p(static_cast<T*>(o.p)) {}
	template<class S> Local<S> As() const { return Local<S>(static_cast<S*>(p)); }
	template<class S> static Local<T> Cast(const Local<S>& o) { return Local<T>(static_cast<T*>(o.p)); }
	T* operator->() const { return p; } T* operator*() const { return p; } bool IsEmpty() const { return !p; } void Clear() { p=0; }
	template<class I> static Local<T> New(I*, const Local<T>& o) { return o; }
};
template<class T> using Handle = Local<T>;
template<class T> class Maybe { public: T v; bool has; Maybe(): v(), has(false) {} Maybe(T x): v(x), has(true) {} bool IsJust() const { return has; } bool IsNothing() const { return !has; } void Check() const {} T FromJust() const { return v; } T ToChecked() const { return v; } T FromMaybe(T d) const { return has?v:d; } bool To(T* o) const { if(has) *o=v; return has; } };
template<class T> class MaybeLocal { public: Local<T> l; MaybeLocal() {} template<class S> MaybeLocal(const Local<S>& x): l(x) {} Local<T> ToLocalChecked() const { return l; } bool IsEmpty() const { return l.IsEmpty(); } template<class S> bool ToLocal(Local<S>* o) const { *o=l; return !l.IsEmpty(); } template<class S> Local<S> FromMaybe(Local<S> d) const { return l.IsEmpty()?d:Local<S>(l); } };
enum { YV_UNDEF, YV_NULL, YV_NUM, YV_BOOL, YV_BUF, YV_OBJ, YV_STR, YV_FUNC, YV_ERR };
template<class T> class FunctionCallbackInfo;
typedef void (*FunctionCallback)(const FunctionCallbackInfo<Value>&);
class Data {};
class Value : public Data {
public:
	int tag; int64_t num; uint8_t* data; size_t len; const char* str; FunctionCallback fn; int nprops; const char* keys[16]; Value* vals[16];
	void (*freecb)(char*,void*); void* hint;
	static void* operator new(size_t n) { return ys_alloc(n,16,0,"v8 value"); } static void operator delete(void*) {} // garbage collected: no concern of the code under test
	Value(): tag(YV_UNDEF), num(0), data(0), len(0), str(0), fn(0), nprops(0), freecb(0), hint(0) {}
	bool IsUndefined() const { return tag==YV_UNDEF; } bool IsNull() const { return tag==YV_NULL; } bool IsNullOrUndefined() const { return tag<=YV_NULL; }
	bool IsNumber() const { return tag==YV_NUM; } bool IsInt32() const { return tag==YV_NUM && num>=-2147483648LL && num<=2147483647LL; } bool IsUint32() const { return tag==YV_NUM && num>=0 && num<=4294967295LL; }
	bool IsBoolean() const { return tag==YV_BOOL; } bool IsTrue() const { return tag==YV_BOOL && num; } bool IsFalse() const { return tag==YV_BOOL && !num; }
	bool IsObject() const { return tag==YV_BUF||tag==YV_OBJ||tag==YV_FUNC||tag==YV_ERR; } bool IsString() const { return tag==YV_STR; } bool IsFunction() const { return tag==YV_FUNC; }
	bool IsUint8Array() const { return tag==YV_BUF; } bool IsArrayBufferView() const { return tag==YV_BUF; } bool IsTypedArray() const { return tag==YV_BUF; } bool IsArray() const { return false; }
	Maybe<int64_t> IntegerValue(Local<Context>) const { return Maybe<int64_t>(num); } Maybe<int32_t> Int32Value(Local<Context>) const { return Maybe<int32_t>((int32_t)num); } Maybe<uint32_t> Uint32Value(Local<Context>) const { return Maybe<uint32_t>((uint32_t)num); }
	Maybe<double> NumberValue(Local<Context>) const { return Maybe<double>((double)num); } bool BooleanValue(Isolate*) const { return tag==YV_BOOL||tag==YV_NUM ? num!=0 : IsObject(); }
	inline MaybeLocal<Integer> ToInteger(Local<Context>) const; inline MaybeLocal<Number> ToNumber(Local<Context>) const; inline Local<Boolean> ToBoolean(Isolate*) const; inline MaybeLocal<Object> ToObject(Local<Context>) const;
};
class Context : public Data {};
class Primitive : public Value {}; class Name : public Primitive {};
class Number : public Primitive { public: double Value() const { return (double)num; } static Local<Number> New(Isolate*, double d) { Number* n=new Number(); n->tag=YV_NUM; n->num=(int64_t)d; return Local<Number>(n); } };
class Integer : public Number { public: int64_t Value() const { return num; } static Local<Integer> New(Isolate*, int32_t v) { Integer* n=new Integer(); n->tag=YV_NUM; n->num=v; return Local<Integer>(n); } static Local<Integer> NewFromUnsigned(Isolate*, uint32_t v) { Integer* n=new Integer(); n->tag=YV_NUM; n->num=v; return Local<Integer>(n); } };
class Int32 : public Integer { public: int32_t Value() const { return (int32_t)num; } }; class Uint32 : public Integer { public: uint32_t Value() const { return (uint32_t)num; } };
class Boolean : public Primitive { public: bool Value() const { return num!=0; } static Local<Boolean> New(Isolate*, bool v) { Boolean* n=new Boolean(); n->tag=YV_BOOL; n->num=v; return Local<Boolean>(n); } };
enum class NewStringType { kNormal, kInternalized };
class String : public Name { public:
	static MaybeLocal<String> NewFromOneByte(Isolate*, const uint8_t* s, NewStringType=NewStringType::kNormal, int=-1) { String* n=new String(); n->tag=YV_STR; n->str=(const char*)s; return MaybeLocal<String>(Local<String>(n)); }
	static MaybeLocal<String> NewFromUtf8(Isolate* i, const char* s, NewStringType=NewStringType::kNormal, int=-1) { return NewFromOneByte(i,(const uint8_t*)s); }
	template<int N> static Local<String> NewFromUtf8Literal(Isolate* i, const char (&s)[N], NewStringType=NewStringType::kNormal) { return NewFromOneByte(i,(const uint8_t*)s).ToLocalChecked(); }
};
static inline bool yv_streq(const char* a, const char* b) { while(*a && *a==*b) a++, b++; return *a==*b; }
class Object : public Value { public:
	static Local<Object> New(Isolate*) { Object* n=new Object(); n->tag=YV_OBJ; return Local<Object>(n); }
	void put(const char* k, v8::Value* v) { for(int i=0;i<nprops;i++) if(yv_streq(keys[i],k)) { vals[i]=v; return; } if(nprops<16) { keys[nprops]=k; vals[nprops++]=v; } }
	v8::Value* get(const char* k) const { for(int i=0;i<nprops;i++) if(yv_streq(keys[i],k)) return vals[i]; return 0; }
	template<class K, class V> Maybe<bool> Set(Local<Context>, Local<K> k, Local<V> v) { put(k->str,v.p); return Maybe<bool>(true); }
	template<class K, class V> bool Set(Local<K> k, Local<V> v) { put(k->str,v.p); return true; }
	template<class K> MaybeLocal<v8::Value> Get(Local<Context>, Local<K> k) { return MaybeLocal<v8::Value>(Local<v8::Value>(get(k->str))); }
};
class Function : public Object {};
class ArrayBuffer : public Object {}; class ArrayBufferView : public Object { public: size_t ByteLength() const { return len; } }; class TypedArray : public ArrayBufferView {}; class Uint8Array : public TypedArray {};
inline MaybeLocal<Integer> Value::ToInteger(Local<Context>) const { return MaybeLocal<Integer>(Local<Integer>(static_cast<Integer*>(const_cast<Value*>(this)))); }
inline MaybeLocal<Number> Value::ToNumber(Local<Context>) const { return MaybeLocal<Number>(Local<Number>(static_cast<Number*>(const_cast<Value*>(this)))); }
inline Local<Boolean> Value::ToBoolean(Isolate* i) const { return Boolean::New(i,BooleanValue(i)); }
inline MaybeLocal<Object> Value::ToObject(Local<Context>) const { return MaybeLocal<Object>(Local<Object>(static_cast<Object*>(const_cast<Value*>(this)))); }
class Isolate { public:
	static void* operator new(size_t n) { return ys_alloc(n,16,0,"isolate"); } static void operator delete(void*) {}
	Value* thrown; Context ctx; Isolate(): thrown(0) {}
	template<class T> Local<Value> ThrowException(Local<T> e) { if(!thrown) thrown=e.p; return Local<Value>(e); }
	template<class S> void ThrowError(const S&) { Value* v=new Value(); v->tag=YV_ERR; if(!thrown) thrown=v; }
	Local<Context> GetCurrentContext() { return Local<Context>(&ctx); } static inline Isolate* GetCurrent(); static Isolate* TryGetCurrent() { return GetCurrent(); }
	int64_t AdjustAmountOfExternalAllocatedMemory(int64_t) { return 0; }
};
inline Isolate* ys_isolate() { static Isolate* i=0; if(!i) i=new Isolate(); return i; }
inline Isolate* Isolate::GetCurrent() { return ys_isolate(); }
struct Exception { static Local<Value> mk(Local<String> s) { Value* v=new Value(); v->tag=YV_ERR; v->str=s->str; return Local<Value>(v); } static Local<Value> Error(Local<String> s) { return mk(s); } static Local<Value> TypeError(Local<String> s) { return mk(s); } static Local<Value> RangeError(Local<String> s) { return mk(s); } };
class HandleScope { public: explicit HandleScope(Isolate*) {} }; class EscapableHandleScope { public: explicit EscapableHandleScope(Isolate*) {} template<class T> Local<T> Escape(Local<T> v) { return v; } };
inline Local<Primitive> Undefined(Isolate*) { return Local<Primitive>(new Primitive()); } inline Local<Primitive> Null(Isolate*) { Primitive* p=new Primitive(); p->tag=YV_NULL; return Local<Primitive>(p); }
inline Local<Boolean> True(Isolate* i) { return Boolean::New(i,true); } inline Local<Boolean> False(Isolate* i) { return Boolean::New(i,false); }
template<class T> class ReturnValue { public: Value** slot; explicit ReturnValue(Value** s): slot(s) {} template<class S> void Set(Local<S> v) { *slot=v.p; } template<class S> void Set(MaybeLocal<S> v) { *slot=v.l.p; }
	void Set(bool b) { *slot=Boolean::New(0,b).p; } void Set(double d) { *slot=Number::New(0,d).p; } void Set(int32_t i) { *slot=Integer::New(0,i).p; } void Set(uint32_t i) { *slot=Integer::NewFromUnsigned(0,i).p; } void SetUndefined() { *slot=new Value(); } void SetNull() { *slot=Null(0).p; } void SetEmptyString() {} };
template<class T> class FunctionCallbackInfo { public:
	int argc; Value* argv[8]; mutable Value* ret; Value undef;
	FunctionCallbackInfo(): argc(0), ret(0) {}
	int Length() const { return argc; } Local<Value> operator[](int i) const { return Local<Value>(i>=0&&i<argc ? argv[i] : const_cast<Value*>(&undef)); }
	Isolate* GetIsolate() const { return ys_isolate(); } ReturnValue<T> GetReturnValue() const { return ReturnValue<T>(&ret); } Local<Object> This() const { return Local<Object>(); } bool IsConstructCall() const { return false; }
};
}
