// Uses of the promise templates which take functions of the user.
#include "lightspeed/base/actions/promise.tcc"
#include "lightspeed/base/containers/string.h"
#include "lightspeed/base/containers/variant.h"
#include "lightspeed/base/actions/idispatcher.h"
#include "lightspeed/base/actions/idispatcher.tcc"
#include "lightspeed/base/exceptions/errorMessageException.h"
using namespace LightSpeed;
typedef Future<StringA> FS;
typedef Future<void> FV;
struct FnS { StringA operator()(const StringA &x) const; };
struct FnI { int operator()(const StringA &x) const; };
struct FnV { void operator()(const StringA &x) const; };
struct Fn0 { void operator()() const; };
struct FnG { StringA operator()() const; };
struct FnGI { StringA operator()(const int &) const; };
struct FnFI { StringA operator()(int) const; };
struct RfS { StringA operator()(const PException &x) const; };
struct RfV { void operator()(const PException &x) const; };
FS use_then(FS f, Promise<StringA> p) {
	f.then(FnS()); f.thenCall(FnV()); f.then(p); f.then(FnS(),RfS()); f.thenCall(FnV(),RfV()); f.onException(RfS()); f.onExceptionCall(RfV());
	FutureAutoCancel<StringA> ac(f);
	return f;
}
Future<int> use_tr(FS f) { return Future<int>::transform(f,FnI()); }
void use_and(FS f, Future<int> g) { f && g; }
void use_or(FS f, Future<int> g) { }
void use_car(Promise<StringA> p, Promise<void> v) { p.callAndResolve(FnG()); p.callAndResolve(FnGI(),1); v.callAndResolve(Fn0()); }
FV use_void(FV f, Promise<void> p) { f.then(Fn0()); f.thenCall(Fn0()); f.thenCall(Fn0(),RfV()); f.then(p); return f; }
void use_disp(IDispatcher &d, FS f, FV v, Promise<StringA> p) { d.dispatch(FnG(),p); d.dispatchFuture(f,p); d.dispatch(Promise<void>(v.getPromise())); d.dispatch(Fn0()); }
struct Fn1 { StringA operator()(const StringA &x) const; };
void use_pipe(FS f) { f >> Fn1(); }
