From 1ce39c0619b62aa741e340b75eb8e5c5285596a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 01/82] fix: a literal segment without a route of its own must
 not hide parameter routes

---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 06636af..ce3cc4d 100755
--- a/router.go
+++ b/router.go
@@ -239,6 +239,10 @@ func (r *route) match(nextPaths []string, params *paramList) (rt *route) {
 				*params = append(*params, newParams...)
 			}
 		}
+		// a path segment without its own route is not a match
+		if rt != nil && !rt.isEnd {
+			rt = nil
+		}
 	}
 
 	// second match paramRoutes
-- 
2.43.0


From c48222a94dcc334cd73524c665cc58c4c67b3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 02/82] fix: pass a controller action the arguments of the
 method that is called

---
 router_action.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/router_action.go b/router_action.go
index 6337b31..4d19543 100755
--- a/router_action.go
+++ b/router_action.go
@@ -111,11 +111,18 @@ func (r *routerAction) wrapHandle(route *route, params paramList, action string)
 }
 
 func (r *routerAction) callStructFunc(ctx Context, params paramList, action string) []reflect.Value {
-	actionIn := r.controller.actionIn
+	// one controller can serve several methods, use arguments of the called one
+	method, ok := r.controller.pTyp.MethodByName(action)
+	if !ok {
+		panic(fmt.Sprintf("not found action func: %s", action))
+	}
+
+	// first argument is the receiver
+	numIn := method.Type.NumIn() - 1
 
-	in := make([]reflect.Value, 0, len(actionIn))
-	for i := 0; i < len(actionIn); i++ {
-		typ := actionIn[i]
+	in := make([]reflect.Value, 0, numIn)
+	for i := 0; i < numIn; i++ {
+		typ := method.Type.In(i + 1)
 		value := reflect.Value{}
 
 		if len(params) > i {
@@ -133,10 +140,6 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 		in = append(in, value)
 	}
 
-	if !r.controller.actionFuncExists(action) {
-		panic(fmt.Sprintf("not found action func: %s", action))
-	}
-
 	newStruct := reflect.New(r.controller.typ)
 	if val := indirectValue(r.controller.val); val.IsValid() {
 		newStruct.Elem().Set(val)
-- 
2.43.0


From 3074eff6d403f5da2a4855820a7c84d80df54826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 03/82] fix: controller actions with pointer arguments must not
 panic

---
 router_action.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/router_action.go b/router_action.go
index 4d19543..ae26833 100755
--- a/router_action.go
+++ b/router_action.go
@@ -131,6 +131,13 @@ func (r *routerAction) callStructFunc(ctx Context, params paramList, action stri
 				param = v
 			}
 			value = convertStringAsType(param, typ)
+
+			// conversion returns the value a pointer type points to
+			for value.IsValid() && value.Type() != typ {
+				ptr := reflect.New(value.Type())
+				ptr.Elem().Set(value)
+				value = ptr
+			}
 		}
 
 		if !value.IsValid() {
-- 
2.43.0


From 3be0ef425d1148cee6dae668b716ce9fdd706898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 04/82] fix: converting a string to an unsupported slice type
 must not panic

---
 app_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 3ce03b3..24427bc 100755
--- a/app_util.go
+++ b/app_util.go
@@ -247,7 +247,7 @@ func convertStringAsType(str string, typ reflect.Type) (value reflect.Value) {
 	}
 
 	val := reflect.ValueOf(v)
-	if val.Type().ConvertibleTo(iTyp) {
+	if val.IsValid() && val.Type().ConvertibleTo(iTyp) {
 		value = val.Convert(iTyp)
 	}
 	return
-- 
2.43.0


From 7e0a2b10c90f043d2d8db12bb95249c2bbf67726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 05/82] fix: StrTo.Uint must accept the whole range of uint

---
 app_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 24427bc..992b1da 100755
--- a/app_util.go
+++ b/app_util.go
@@ -91,7 +91,7 @@ func (f StrTo) Int64() (int64, error) {
 
 // string to uint
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := strconv.ParseUint(f.String(), 10, 64)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From e4016702aea30c5fccba71ec589e57088c143338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 06/82] fix: Value.Uint must accept the whole range of uint

---
 utils/converter_value_to.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index 48656f4..b0ea893 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := strconv.ParseUint(v.String(), 10, 64)
 	return uint(value), err
 }
 
-- 
2.43.0


From 160be84eb6eb057f74052d5830c20d199aeecac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 07/82] fix: Flush must send the saved status code and run the
 Before hooks

---
 response.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/response.go b/response.go
index 3ba24d6..a1e5759 100755
--- a/response.go
+++ b/response.go
@@ -60,6 +60,15 @@ func (rw *responseWriter) WriteHeader(s int) {
 }
 
 func (rw *responseWriter) Write(b []byte) (int, error) {
+	rw.flushHeader()
+
+	size, err := rw.ResponseWriter.Write(b)
+	rw.size += size
+	return size, err
+}
+
+// flush header only once
+func (rw *responseWriter) flushHeader() {
 	rw.once.Do(func() {
 		rw.callBefore()
 		// The status will be StatusOK if WriteHeader has not been called yet
@@ -73,10 +82,6 @@ func (rw *responseWriter) Write(b []byte) (int, error) {
 
 		rw.ResponseWriter.WriteHeader(rw.status)
 	})
-
-	size, err := rw.ResponseWriter.Write(b)
-	rw.size += size
-	return size, err
 }
 
 func (rw *responseWriter) Status() int {
@@ -116,6 +121,8 @@ func (rw *responseWriter) CloseNotify() <-chan bool {
 func (rw *responseWriter) Flush() {
 	flusher, ok := rw.ResponseWriter.(http.Flusher)
 	if ok {
+		// header will be sent by flush, so must use the saved status code
+		rw.flushHeader()
 		flusher.Flush()
 	}
 }
-- 
2.43.0


From c8ed932239a3b8799d4e23336829d762dd893e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 08/82] fix: status of a response must not change after its
 header was sent

---
 response.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/response.go b/response.go
index a1e5759..e2babab 100755
--- a/response.go
+++ b/response.go
@@ -48,6 +48,9 @@ type responseWriter struct {
 
 	once sync.Once
 
+	// header have been flushed
+	flushed bool
+
 	hijacked bool
 }
 
@@ -56,6 +59,10 @@ func (rw *responseWriter) WriteHeader(s int) {
 	if s == 0 {
 		panic("http status code can not be zero")
 	}
+	// status code can not change after header flushed
+	if rw.flushed {
+		return
+	}
 	rw.status = s
 }
 
@@ -75,6 +82,7 @@ func (rw *responseWriter) flushHeader() {
 		if rw.status == 0 {
 			rw.status = http.StatusOK
 		}
+		rw.flushed = true
 
 		if rw.hijacked {
 			return
-- 
2.43.0


From 619b24ae5f4bc5d02722114c3ac4e654160a3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 09/82] fix: GenericOutFilter must not panic on results of
 kinds that can not be nil

---
 router_action_out.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/router_action_out.go b/router_action_out.go
index c8b574e..b4d0eac 100755
--- a/router_action_out.go
+++ b/router_action_out.go
@@ -66,10 +66,18 @@ func GenericOutFilter() interface{} {
 			body = out[len(out)-1]
 		}
 
-		if !body.CanInterface() || body.IsNil() {
+		if !body.CanInterface() {
 			return
 		}
 
+		// only these kinds can be nil
+		switch body.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			if body.IsNil() {
+				return
+			}
+		}
+
 		itf := body.Interface()
 		switch src := itf.(type) {
 		case ActionResult:
-- 
2.43.0


From a24f2ceeaa5775336775cc27dff66d818f491f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 10/82] fix: raw results must send their status with text,
 reader and empty bodies

---
 utils/apires/raw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index eda8301..cdaec94 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -23,16 +23,20 @@ func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Req
 	}
 
 	if r.Body == nil {
+		rw.WriteHeader(r.Status)
 		return
 	}
 
 	var err error
 	switch v := r.Body.(type) {
 	case string:
+		rw.WriteHeader(r.Status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
+		rw.WriteHeader(r.Status)
 		_, err = rw.Write(v)
 	case io.Reader:
+		rw.WriteHeader(r.Status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
-- 
2.43.0


From c437c4bc4a453a0e19245105bf2c051e44bfbc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 11/82] fix: writing a result must not change it, it may be
 shared between requests

---
 utils/apires/raw.go | 19 ++++++++++---------
 utils/apires/res.go | 16 +++++++++-------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/utils/apires/raw.go b/utils/apires/raw.go
index cdaec94..c99450e 100755
--- a/utils/apires/raw.go
+++ b/utils/apires/raw.go
@@ -13,37 +13,38 @@ type RawBody struct {
 }
 
 func (r *RawBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	status := r.Status
+	if status == 0 {
+		status = http.StatusOK
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
 	if r.Body == nil {
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		return
 	}
 
 	var err error
 	switch v := r.Body.(type) {
 	case string:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		_, err = rw.Write([]byte(v))
 	case []byte:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		_, err = rw.Write(v)
 	case io.Reader:
-		rw.WriteHeader(r.Status)
+		rw.WriteHeader(status)
 		buf := make([]byte, 4*1024)
 		_, err = io.CopyBuffer(rw, v, buf)
 		if c, ok := r.Body.(io.Closer); ok {
 			c.Close()
 		}
 	default:
-		err = writeJsonBody(r.Status, r.Body, ctx, rw, req)
+		err = writeJsonBody(status, r.Body, ctx, rw, req)
 	}
 	if err != nil {
 		var logger strip.Logger
diff --git a/utils/apires/res.go b/utils/apires/res.go
index c70377f..4761295 100755
--- a/utils/apires/res.go
+++ b/utils/apires/res.go
@@ -15,19 +15,21 @@ type ResBody struct {
 }
 
 func (r *ResBody) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
-	if r.Status == 0 {
-		r.Status = http.StatusOK
+	// the result may be shared between requests, it must not change here
+	status, body := r.Status, r.Body
+	if status == 0 {
+		status = http.StatusOK
 	}
-	if r.Body == nil {
-		r.Body = struct{}{}
+	if body == nil {
+		body = struct{}{}
 	}
 
-	if r.Status == http.StatusNoContent {
-		rw.WriteHeader(r.Status)
+	if status == http.StatusNoContent {
+		rw.WriteHeader(status)
 		return
 	}
 
-	if err := writeJsonBody(r.Status, r.Body, ctx, rw, req); err != nil {
+	if err := writeJsonBody(status, body, ctx, rw, req); err != nil {
 		var logger strip.Logger
 		ctx.Find(&logger, "")
 		logger.Warn("response write failed:", err)
-- 
2.43.0


From f99c1a7028511c096b60c1073efb1f84188bbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 12/82] fix: Invoke must run its function whatever type it
 returns

---
 inject/inject.go          |  9 +++++----
 inject/inject_provider.go | 12 +++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index 8930c7d..a85da34 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -172,14 +172,15 @@ func (inj *injector) Invoke(prov interface{}) ([]reflect.Value, error) {
 	status := make(invokeStatus)
 
 	info := newProvider(Object{Value: prov})
-	out, err := info.invoke(inj, status)
+	if info.value != nil {
+		return []reflect.Value{info.val}, nil
+	}
 
+	// the function is not a provider of the type it returns
+	out, err := info.call(inj, status)
 	if err != nil {
 		return nil, fmt.Errorf("provider invoke err: %v", err)
 	}
-
-	// remove exists cache of provider
-	delete(inj.caches, info.name)
 	return out, nil
 }
 
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index bf23987..106a912 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -144,6 +144,15 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
+	out, err = p.call(inj, status)
+	if err == nil && p.ptyp.NumOut() > 0 {
+		inj.caches[p.name] = out
+	}
+	return
+}
+
+// call the provider function with its resolved dependencies
+func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.Value, err error) {
 	in := make([]reflect.Value, 0, len(p.deps))
 	for _, dep := range p.deps {
 		prov := inj.get(dep)
@@ -177,9 +186,6 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 
 	// invoke provider function
 	out = p.pval.Call(in)
-	if p.ptyp.NumOut() > 0 {
-		inj.caches[p.name] = out
-	}
 	return
 }
 
-- 
2.43.0


From 83986e66b92cc2f875207c9b38e8f639b35b4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 13/82] fix: find dependency cycles among providers that were
 resolved before

---
 inject/inject_provider.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 106a912..b8f60ed 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -3,7 +3,6 @@ package inject
 import (
 	"fmt"
 	"reflect"
-	"sync/atomic"
 )
 
 type Provider interface{}
@@ -32,8 +31,6 @@ type providerInfo struct {
 
 	// reflect value of provider value
 	val reflect.Value
-
-	done uint32
 }
 
 func newProvider(obj Object) (info *providerInfo) {
@@ -130,14 +127,9 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 		return
 	}
 
-	defer func() {
-		if err == nil {
-			atomic.AddUint32(&p.done, 1)
-		}
-	}()
-
 	// on process
 	status.set(p.name)
+	defer delete(status, p.name)
 
 	if p.value != nil {
 		out = []reflect.Value{p.val}
@@ -162,7 +154,7 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 		}
 
 		// avoid cycle dependencies
-		if atomic.LoadUint32(&prov.done) == 0 && status.has(prov.name) {
+		if status.has(prov.name) {
 			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
 			return
 		}
-- 
2.43.0


From 3fdde2402be19b203ca33802e1dda957f8891f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 14/82] fix: providers of different types must not replace each
 other

---
 inject/inject.go          | 16 ++++++++--------
 inject/inject_provider.go | 26 +++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/inject/inject.go b/inject/inject.go
index a85da34..a014322 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -43,25 +43,25 @@ type TypeProvider interface {
 }
 
 type provInvoker interface {
-	get(string) *providerInfo
+	get(provName) *providerInfo
 }
 
-type invokeStatus map[string]bool
+type invokeStatus map[provName]bool
 
-func (m invokeStatus) has(name string) bool {
+func (m invokeStatus) has(name provName) bool {
 	_, ok := m[name]
 	return ok
 }
 
-func (m invokeStatus) set(name string) {
+func (m invokeStatus) set(name provName) {
 	m[name] = false
 }
 
-type invokeCache map[string][]reflect.Value
+type invokeCache map[provName][]reflect.Value
 
 type injector struct {
 	// use for store provider
-	values map[string]*providerInfo
+	values map[provName]*providerInfo
 
 	// user for cache provider instance for current inject
 	caches invokeCache
@@ -71,7 +71,7 @@ type injector struct {
 
 func New() Injector {
 	return &injector{
-		values: make(map[string]*providerInfo),
+		values: make(map[provName]*providerInfo),
 		caches: make(invokeCache),
 	}
 }
@@ -266,7 +266,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	return nil
 }
 
-func (inj *injector) get(name string) *providerInfo {
+func (inj *injector) get(name provName) *providerInfo {
 	// get provider in current injector
 	if prov := inj.values[name]; prov != nil {
 		return prov
diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index b8f60ed..57caef9 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -11,10 +11,10 @@ type Provide []Provider
 type Dep map[int]string
 
 type providerInfo struct {
-	name string
+	name provName
 
 	// depends of this provider
-	deps []string
+	deps []provName
 
 	// type of injerct value
 	typ reflect.Type
@@ -79,7 +79,7 @@ func newProvider(obj Object) (info *providerInfo) {
 	}
 
 	numIn := info.ptyp.NumIn()
-	deps := make([]string, 0, numIn)
+	deps := make([]provName, 0, numIn)
 
 	for i := 0; i < numIn; i++ {
 		typ := indirectType(info.ptyp.In(i))
@@ -181,9 +181,25 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 	return
 }
 
+// a provider is identified by its exact type and its name
+type provName struct {
+	typ  reflect.Type
+	name string
+}
+
+func (n provName) String() string {
+	if n.typ == nil {
+		return n.name
+	}
+	if n.typ.Name() == "" {
+		return n.typ.String() + ":" + n.name
+	}
+	return n.typ.PkgPath() + ":" + n.typ.Name() + ":" + n.name
+}
+
 // create unique name of type
-func createName(typ reflect.Type, name string) string {
-	return typ.PkgPath() + ":" + typ.Name() + ":" + name
+func createName(typ reflect.Type, name string) provName {
+	return provName{typ, name}
 }
 
 // reflect indirect of reflect.Value
-- 
2.43.0


From 69079836c5f6d3f6fb64e4937e33549f38e99109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 15/82] fix: functions get injected values assigned the way
 Find assigns them

---
 inject/inject_provider.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inject/inject_provider.go b/inject/inject_provider.go
index 57caef9..0e10f8f 100755
--- a/inject/inject_provider.go
+++ b/inject/inject_provider.go
@@ -146,7 +146,7 @@ func (p *providerInfo) invoke(inj *injector, status invokeStatus) (out []reflect
 // call the provider function with its resolved dependencies
 func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.Value, err error) {
 	in := make([]reflect.Value, 0, len(p.deps))
-	for _, dep := range p.deps {
+	for i, dep := range p.deps {
 		prov := inj.get(dep)
 		if prov == nil {
 			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
@@ -173,7 +173,11 @@ func (p *providerInfo) call(inj *injector, status invokeStatus) (out []reflect.V
 			}
 		}
 
-		in = append(in, ot[0])
+		arg := reflect.New(p.ptyp.In(i)).Elem()
+		if err = assignValue(ot[0], arg); err != nil {
+			return
+		}
+		in = append(in, arg)
 	}
 
 	// invoke provider function
-- 
2.43.0


From eca0a340a4f14e14cc55582f6fe79d108770bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 16/82] fix: Apply must report a field that can not take its
 value

---
 inject/inject.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index a014322..c0fc926 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -238,7 +238,9 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 					return fmt.Errorf("value not found for type %s:%v", provName, field)
 				}
 
-				assignValue(out[0], field)
+				if err := assignValue(out[0], field); err != nil {
+					return err
+				}
 			}
 
 			continue
-- 
2.43.0


From 4890475677db0c4d2d2338f3951596d65337d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 17/82] fix: Apply must not read through fields that are no
 structs

---
 inject/inject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject/inject.go b/inject/inject.go
index c0fc926..2b1d7ec 100755
--- a/inject/inject.go
+++ b/inject/inject.go
@@ -200,7 +200,7 @@ func (inj *injector) apply(ptrStruct interface{}, status invokeStatus, level int
 	elm := reflect.Indirect(val)
 
 	if elm.Kind() != reflect.Struct {
-		return &typeError{fmt.Errorf("expected a <*struct> of %v", val)}
+		return &typeError{fmt.Errorf("expected a <*struct> of %T", ptrStruct)}
 	}
 
 	typ := elm.Type()
-- 
2.43.0


From 08f756a714eaa3fa7eb5c03a71b9178556ece393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 18/82] fix: numbers that do not fit their type must not be
 bound to other numbers

---
 params/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/params/binder.go b/params/binder.go
index 3c5581f..d7f790a 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -66,7 +66,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			intValue, err := strconv.ParseInt(val, 10, 64)
+			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -81,7 +81,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			uintValue, err := strconv.ParseUint(val, 10, 64)
+			uintValue, err := strconv.ParseUint(val, 10, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
@@ -96,7 +96,7 @@ var (
 			if len(val) == 0 {
 				return reflect.Zero(typ)
 			}
-			floatValue, err := strconv.ParseFloat(val, 64)
+			floatValue, err := strconv.ParseFloat(val, typ.Bits())
 			if err != nil {
 				return reflect.Zero(typ)
 			}
-- 
2.43.0


From 2ebafb4083b25db5709221f3e956933285e3ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 19/82] fix: bind times given in hours and minutes

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index d7f790a..6f3b515 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -47,7 +47,7 @@ func ValueBinder(f func(value string, typ reflect.Type) reflect.Value) func(*Par
 
 const (
 	DEFAULT_DATE_FORMAT            = "2006-01-02"
-	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:0"
+	DEFAULT_DATETIME_FORMAT        = "2006-01-02 15:04"
 	DEFAULT_DATETIME_FORMAT_SECOND = "2006-01-02 15:04:05"
 )
 
-- 
2.43.0


From 5924b909e39caecf19b30dd4f102e1b38b4f1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 20/82] fix: bind numbers and nulls of a JSON map exactly

---
 params/binder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 6f3b515..321662b 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -343,8 +343,14 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 	)
 	if v := params.Values.Get(name); v != "" {
 		raw := make(map[string]interface{})
-		_ = json.Unmarshal([]byte(v), &raw)
+		dec := json.NewDecoder(strings.NewReader(v))
+		dec.UseNumber() // keep the digits
+		_ = dec.Decode(&raw)
 		for key, value := range raw {
+			if value == nil {
+				result.SetMapIndex(BindValue(key, keyType), reflect.Zero(valueType))
+				continue
+			}
 			result.SetMapIndex(BindValue(key, keyType), BindValue(fmt.Sprint(value), valueType))
 		}
 	} else {
-- 
2.43.0


From aa8c7acd57fb2a878fea4f5926aac3fb862db8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 21/82] fix: a parameter without values must not panic in a map

---
 params/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 321662b..c09c1ab 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -355,7 +355,7 @@ func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
 		}
 	} else {
 		for paramName, values := range params.Values {
-			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
+			if len(values) == 0 || !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
 				continue
 			}
 
-- 
2.43.0


From 332aa34d18e34b12cec0580c8c0fc2e9ffa77398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 22/82] fix: ignore slice elements with an invalid or excessive
 index

---
 params/binder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index c09c1ab..e55ef88 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -57,6 +57,10 @@ var (
 	TypeBinders = make(map[reflect.Type]Binder)
 	KindBinders = make(map[reflect.Kind]Binder)
 
+	// Slice elements with a larger index are ignored, a slice is as long as its
+	// largest index whatever the size of the request.
+	MaxSliceIndex = 9999
+
 	// Applications can add custom time formats to this array, and they will be
 	// automatically attempted when binding a time.Time.
 	TimeFormats = []string{}
@@ -231,7 +235,11 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 		index := -1
 		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
 		if rightBracket > leftBracket+1 {
-			index, _ = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			var err error
+			index, err = strconv.Atoi(key[leftBracket+1 : rightBracket])
+			if err != nil || index > MaxSliceIndex {
+				return
+			}
 		}
 		subKeyIndex := rightBracket + 1
 
-- 
2.43.0


From 7c71f798d38f59ff5909b147808c9f77efc04b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 23/82] fix: bind each slice element once, not once per sub-key

---
 params/binder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/params/binder.go b/params/binder.go
index e55ef88..0445799 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -224,6 +224,7 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 	maxIndex := -1
 	numNoIndex := 0
 	sliceValues := []sliceValue{}
+	bound := make(map[string]bool)
 
 	// Factor out the common slice logic (between form values and files).
 	processElement := func(key string, vals []string, files []*multipart.FileHeader) {
@@ -245,6 +246,12 @@ func bindSlice(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		// Handle the indexed case.
 		if index > -1 {
+			// bind an element once, however many sub-keys it has
+			if bound[key[:subKeyIndex]] {
+				return
+			}
+			bound[key[:subKeyIndex]] = true
+
 			if index > maxIndex {
 				maxIndex = index
 			}
-- 
2.43.0


From a5bfd17721b4e98742798a5a9ab6c6bf32a0a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 24/82] fix: binding a field of an embedded nil pointer must
 not panic

---
 params/binder.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/params/binder.go b/params/binder.go
index 0445799..b85215b 100755
--- a/params/binder.go
+++ b/params/binder.go
@@ -332,7 +332,7 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 
 		if _, ok := fieldValues[fieldName]; !ok {
 			// Time to bind this field.  Get it and make sure we can set it.
-			fieldValue := result.FieldByName(fieldName)
+			fieldValue := fieldByName(result, fieldName)
 			if !fieldValue.IsValid() {
 				continue
 			}
@@ -348,6 +348,27 @@ func bindStruct(params *Params, name string, typ reflect.Type) reflect.Value {
 	return result
 }
 
+// fieldByName finds a field, also one of an embedded pointer that is nil.
+func fieldByName(val reflect.Value, name string) reflect.Value {
+	field, ok := val.Type().FieldByName(name)
+	if !ok || field.PkgPath != "" {
+		return reflect.Value{}
+	}
+	for i, x := range field.Index {
+		if i > 0 && val.Kind() == reflect.Ptr {
+			if val.IsNil() {
+				if !val.CanSet() {
+					return reflect.Value{}
+				}
+				val.Set(reflect.New(val.Type().Elem()))
+			}
+			val = val.Elem()
+		}
+		val = val.Field(x)
+	}
+	return val
+}
+
 // bindMap converts parameters using map syntax into the corresponding map. e.g.:
 //   params["a[5]"]=foo, name="a", typ=map[int]string => map[int]string{5: "foo"}
 func bindMap(params *Params, name string, typ reflect.Type) reflect.Value {
-- 
2.43.0


From d7762b9b1821c486ae0e71ca78f8459dce1c92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 25/82] fix: binding to an embedded pointer to an unexported
 struct must not panic

---
 params/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index 9d98e45..a879979 100755
--- a/params/params.go
+++ b/params/params.go
@@ -183,7 +183,9 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					// save pointer
 					pointerMap[pointer] = true
 				}
-				if ok := p.bindValuesToStruct(inf, pointerMap); ok {
+				ok := p.bindValuesToStruct(inf, pointerMap)
+				// a pointer to an unexported type can not be set
+				if ok && field.IsNil() && field.CanSet() {
 					field.Set(newField)
 				}
 
-- 
2.43.0


From 4605c18954dfb2c6815341856ab419a9eaf210ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 26/82] fix: keep an embedded pointer struct whose nested or
 indexed fields were bound

---
 params/params.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/params/params.go b/params/params.go
index a879979..d2925d3 100755
--- a/params/params.go
+++ b/params/params.go
@@ -184,6 +184,7 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 					pointerMap[pointer] = true
 				}
 				ok := p.bindValuesToStruct(inf, pointerMap)
+				exits = exits || ok
 				// a pointer to an unexported type can not be set
 				if ok && field.IsNil() && field.CanSet() {
 					field.Set(newField)
@@ -191,16 +192,16 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 
 			} else if field.Kind() == reflect.Struct {
 				inf = field
-				p.bindValuesToStruct(inf, pointerMap)
+				if p.bindValuesToStruct(inf, pointerMap) {
+					exits = true
+				}
 			} else {
 				continue
 			}
 
 		} else {
 			if !exits {
-				if vals, ok := p.Values[name]; ok && len(vals) > 0 {
-					exits = true
-				}
+				exits = p.has(name)
 			}
 			paramValue := Bind(p, name, field.Type())
 			if paramValue.Type().ConvertibleTo(field.Type()) {
@@ -211,6 +212,19 @@ func (p *Params) bindValuesToStruct(elm reflect.Value, pointerMap map[uintptr]bo
 	return
 }
 
+// has tells whether there is a value for the name or a part of it.
+func (p *Params) has(name string) bool {
+	if len(p.Values[name]) > 0 {
+		return true
+	}
+	for key := range p.Values {
+		if strings.HasPrefix(key, name+"[") || strings.HasPrefix(key, name+".") {
+			return true
+		}
+	}
+	return false
+}
+
 // calcValues returns a unified view of the component param maps.
 func (p *Params) calcValues() url.Values {
 	numParams := len(p.Query) + len(p.Route.Values) + len(p.Form)
-- 
2.43.0


From 70ba206581588e25410940c73b30e499494aed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 27/82] fix: query parameters of a form request must not be
 seen twice

---
 params/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/params/params.go b/params/params.go
index d2925d3..8230082 100755
--- a/params/params.go
+++ b/params/params.go
@@ -60,7 +60,7 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if err := req.ParseForm(); err != nil {
 			return err
 		} else {
-			params.Form = req.Form
+			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
-- 
2.43.0


From d5e140661d98c5926e17adc9880966e38550ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 28/82] fix: a malformed body or query must not hide the other
 parameters

---
 params/params.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/params/params.go b/params/params.go
index 8230082..6f372a6 100755
--- a/params/params.go
+++ b/params/params.go
@@ -46,6 +46,11 @@ func ParseParams(params *Params, maxMemory int64) error {
 
 	params.Query = req.URL.Query()
 
+	// whatever could be parsed is available
+	defer func() {
+		params.Values = params.calcValues()
+	}()
+
 	contentType := req.Header.Get("Content-Type")
 	if contentType == "" {
 		contentType = "text/html"
@@ -57,10 +62,10 @@ func ParseParams(params *Params, maxMemory int64) error {
 	switch contentType {
 	case "application/x-www-form-urlencoded":
 		// Typical form.
-		if err := req.ParseForm(); err != nil {
+		err := req.ParseForm()
+		params.Form = req.PostForm
+		if err != nil {
 			return err
-		} else {
-			params.Form = req.PostForm
 		}
 
 	case "multipart/form-data":
@@ -76,7 +81,6 @@ func ParseParams(params *Params, maxMemory int64) error {
 		}
 	}
 
-	params.Values = params.calcValues()
 	return nil
 }
 
-- 
2.43.0


From f2be6ac16cabecf9cce9955d963f91f2712af525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 29/82] fix: data race reading the max_memory setting of the
 parameters

---
 params/params.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/params/params.go b/params/params.go
index 6f372a6..e2281fe 100755
--- a/params/params.go
+++ b/params/params.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/wujiu2020/strip"
 )
@@ -264,6 +265,7 @@ func (p *Params) calcValues() url.Values {
 
 func ParamsParser() interface{} {
 	var maxMemory int64
+	var once sync.Once
 
 	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
 		params := new(Params)
@@ -277,12 +279,12 @@ func ParamsParser() interface{} {
 			params.Route = *routeInfo
 		}
 
-		if maxMemory == 0 {
+		once.Do(func() {
 			config.Bind(&maxMemory, "max_memory")
 			if maxMemory == 0 {
 				maxMemory = DefaultMaxMemory
 			}
-		}
+		})
 
 		err := ParseParams(params, maxMemory)
 		if err != nil {
-- 
2.43.0


From 41148e71f029c3857790fe649d417df95043973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 30/82] fix: keep uploaded files until the request is over

---
 app.go           | 11 +++++++++++
 params/params.go | 22 +---------------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/app.go b/app.go
index 1ba8b87..9139e4d 100755
--- a/app.go
+++ b/app.go
@@ -117,12 +117,23 @@ func (s *Strip) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	ctx.Provide(req)
 	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))
 
+	// the server only knows its own request, not the one a form was parsed of
+	defer removeUploads(ctx)
+
 	ctx.(*context).run()
 
 	// flush header if have not written
 	trw.Write(nil)
 }
 
+// remove the temporary files of the uploads of a finished request
+func removeUploads(ctx Context) {
+	var req *http.Request
+	if err := ctx.Find(&req); err == nil && req != nil && req.MultipartForm != nil {
+		req.MultipartForm.RemoveAll()
+	}
+}
+
 func (s *Strip) Run() error {
 	mode := string(s.Config.RunMode)
 	addr := fmt.Sprintf("%s:%s", s.Config.HttpAddr, s.Config.HttpPort)
diff --git a/params/params.go b/params/params.go
index e2281fe..dde5531 100755
--- a/params/params.go
+++ b/params/params.go
@@ -8,7 +8,6 @@ import (
 	"mime/multipart"
 	"net/http"
 	"net/url"
-	"os"
 	"reflect"
 	"strings"
 	"sync"
@@ -35,8 +34,7 @@ type Params struct {
 	Query url.Values // Parameters from the query string, e.g. /index?limit=10
 	Form  url.Values // Parameters from the request body.
 
-	Files    map[string][]*multipart.FileHeader // Files uploaded in a multipart form
-	tmpFiles []*os.File                         // Temp files used during the request.
+	Files map[string][]*multipart.FileHeader // Files uploaded in a multipart form
 
 	req *http.Request
 	log strip.Logger
@@ -291,24 +289,6 @@ func ParamsParser() interface{} {
 			log.Notice("parse params error", err)
 		}
 
-		// Clean up from the request.
-		defer func() {
-			// Delete temp files.
-			if req.MultipartForm != nil {
-				err := req.MultipartForm.RemoveAll()
-				if err != nil {
-					log.Notice("error removing temporary files:", err)
-				}
-			}
-
-			for _, tmpFile := range params.tmpFiles {
-				err := os.Remove(tmpFile.Name())
-				if err != nil {
-					log.Notice("could not remove upload temp file:", err)
-				}
-			}
-		}()
-
 		return params
 	}
 }
-- 
2.43.0


From b7bcd93b39116ae867e6b220f1ec150777ac2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 31/82] fix: RealIp must not cut IPv6 addresses

---
 params/real.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/params/real.go b/params/real.go
index 31493a9..bf93ef9 100755
--- a/params/real.go
+++ b/params/real.go
@@ -1,6 +1,7 @@
 package params
 
 import (
+	"net"
 	"net/http"
 	"net/url"
 	"strings"
@@ -14,19 +15,31 @@ func RealIp(req *http.Request) (realIp string) {
 
 	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
 	if len(ips) > 0 && ips[0] != "" {
-		rip := strings.Split(ips[0], ":")
-		realIp = rip[0]
+		realIp = stripPort(ips[0])
 		return
 	}
 
-	ip := strings.Split(req.RemoteAddr, ":")
-	if len(ip) > 0 {
-		if ip[0] != "[" {
-			realIp = ip[0]
-			return
-		}
+	realIp = stripPort(req.RemoteAddr)
+	if realIp == "::1" {
+		realIp = "127.0.0.1"
 	}
-	return "127.0.0.1"
+	return
+}
+
+// stripPort removes the port and the brackets of an address.
+func stripPort(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
+	}
+	if strings.HasPrefix(addr, "[") && strings.HasSuffix(addr, "]") {
+		return addr[1 : len(addr)-1]
+	}
+	if strings.Count(addr, ":") > 1 {
+		// IPv6 without port
+		return addr
+	}
+	return strings.Split(addr, ":")[0]
 }
 
 func RealHost(req *http.Request) (host string) {
-- 
2.43.0


From 2bb21c4a742ac4c3ea03bcb255e6f8679b1f17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 32/82] fix: RealHost must not cut IPv6 hosts

---
 params/real.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params/real.go b/params/real.go
index bf93ef9..14c7112 100755
--- a/params/real.go
+++ b/params/real.go
@@ -47,6 +47,12 @@ func RealHost(req *http.Request) (host string) {
 	if host == "" {
 		host = req.Host
 	}
+	if strings.HasPrefix(host, "[") {
+		// the brackets are part of an IPv6 host
+		if idx := strings.Index(host, "]"); idx != -1 {
+			return host[:idx+1]
+		}
+	}
 	parts := strings.Split(host, ":")
 	if len(parts) > 0 {
 		host = parts[0]
-- 
2.43.0


From 5ab0653b96a2cd7570748d4a4d22dd3ddb803eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 33/82] fix: RealURL must keep the encoding of the original
 path

---
 params/real.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params/real.go b/params/real.go
index 14c7112..18ebab3 100755
--- a/params/real.go
+++ b/params/real.go
@@ -89,6 +89,7 @@ func RealURL(req *http.Request) (u *url.URL, err error) {
 	d.Scheme = RealProto(req)
 	d.Opaque = ins.Opaque
 	d.Path = ins.Path
+	d.RawPath = ins.RawPath
 	d.RawQuery = ins.RawQuery
 	return &d, nil
 }
-- 
2.43.0


From 86e457ff86989a4f31727627261258a26c93b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 34/82] fix: writes after the gzip filter must not go to the
 closed gzip stream

---
 gzip/gzip.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 05bf01e..d1b1bc1 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -32,11 +32,14 @@ func All() interface{} {
 		headers.Set(HeaderVary, HeaderAcceptEncoding)
 
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
-		defer gzw.close()
+		defer func() {
+			gzw.close()
+			// who writes after the end of the stream must not use it
+			ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
+		}()
 		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))
 
 		ctx.Next()
-		// for defer, gzw need close at the end of request
 	}
 }
 
-- 
2.43.0


From f0d5a139e2c91cfc6ed9c56ccc1094559da05ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 35/82] fix: only a body that is compressed may be declared as
 gzip

---
 gzip/gzip.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index d1b1bc1..fdef717 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -27,10 +27,6 @@ func All() interface{} {
 			return
 		}
 
-		headers := rw.Header()
-		headers.Set(HeaderContentEncoding, "gzip")
-		headers.Set(HeaderVary, HeaderAcceptEncoding)
-
 		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}
 		defer func() {
 			gzw.close()
@@ -50,18 +46,40 @@ type gzipResponseWriter struct {
 }
 
 func (g *gzipResponseWriter) Write(p []byte) (int, error) {
-	g.one.Do(func() {
-		g.gzw = gzip.NewWriter(g.ResponseWriter)
+	g.one.Do(func() { g.start(p) })
 
-		// delete content length after we know we have been written to
-		g.Header().Del(HeaderContentLength)
+	if g.gzw == nil {
+		return g.ResponseWriter.Write(p)
+	}
+	return g.gzw.Write(p)
+}
 
-		if len(g.Header().Get(HeaderContentType)) == 0 {
-			g.Header().Set(HeaderContentType, http.DetectContentType(p))
-		}
-	})
+// start decides about compression when the first bytes are written
+func (g *gzipResponseWriter) start(p []byte) {
+	headers := g.Header()
 
-	return g.gzw.Write(p)
+	// the body is encoded already
+	if headers.Get(HeaderContentEncoding) != "" {
+		return
+	}
+
+	// there will be no body
+	switch status := g.Status(); {
+	case status >= 100 && status < 200, status == http.StatusNoContent, status == http.StatusNotModified:
+		return
+	}
+
+	g.gzw = gzip.NewWriter(g.ResponseWriter)
+
+	headers.Set(HeaderContentEncoding, "gzip")
+	headers.Add(HeaderVary, HeaderAcceptEncoding)
+
+	// delete content length after we know we have been written to
+	headers.Del(HeaderContentLength)
+
+	if len(p) > 0 && len(headers.Get(HeaderContentType)) == 0 {
+		headers.Set(HeaderContentType, http.DetectContentType(p))
+	}
 }
 
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
-- 
2.43.0


From 18644efe5d2169a587bbf53cc33dd3ac4865a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 36/82] fix: Flush of a compressed response must send what was
 written

---
 gzip/gzip.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index fdef717..1393ac1 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -82,6 +82,15 @@ func (g *gzipResponseWriter) start(p []byte) {
 	}
 }
 
+func (g *gzipResponseWriter) Flush() {
+	g.one.Do(func() { g.start(nil) })
+
+	if g.gzw != nil {
+		g.gzw.Flush()
+	}
+	g.ResponseWriter.Flush()
+}
+
 func (g *gzipResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
 	hijacker, ok := g.ResponseWriter.(http.Hijacker)
 	if !ok {
-- 
2.43.0


From 6e025c435e9e0e730c85627ff6d6701f2c99c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 37/82] fix: SliceValue.Set must add the elements of the list

---
 utils/helpers/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/helpers/config.go b/utils/helpers/config.go
index b3f5d84..b27681a 100755
--- a/utils/helpers/config.go
+++ b/utils/helpers/config.go
@@ -16,7 +16,7 @@ func (s *SliceValue) Set(v string) error {
 	for _, p := range strings.Split(v, ",") {
 		p = strings.TrimSpace(p)
 		if p != "" {
-			*s = append(*s, v)
+			*s = append(*s, p)
 		}
 	}
 	return nil
-- 
2.43.0


From d396f0c8e1da89f01d9aa3203d258b18d0f66c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 38/82] fix: Decode must accept embedded structs of unexported
 types

---
 config/config_parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/config/config_parse.go b/config/config_parse.go
index 8fd3159..dfdb2a5 100755
--- a/config/config_parse.go
+++ b/config/config_parse.go
@@ -16,7 +16,10 @@ func Decode(config *strip.Config, env interface{}) {
 	if val.Kind() != reflect.Struct {
 		panic("env instance must be ptr struct")
 	}
+	decode(config, val)
+}
 
+func decode(config *strip.Config, val reflect.Value) {
 	typ := val.Type()
 
 	for i := 0; i < val.NumField(); i++ {
@@ -24,7 +27,7 @@ func Decode(config *strip.Config, env interface{}) {
 		fType := typ.Field(i)
 
 		if fVal.Kind() == reflect.Struct && fType.Anonymous {
-			Decode(config, fVal.Addr().Interface())
+			decode(config, fVal)
 			continue
 		}
 
-- 
2.43.0


From 7d9ab68e20114fe98fda8476b07a0ad2c11a79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 39/82] fix: Config.Bind must follow pointers of any depth

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 8b41b67..eb25a60 100755
--- a/config.go
+++ b/config.go
@@ -84,7 +84,7 @@ func (c *Config) Bind(ptr interface{}, name string) {
 		elm := val.Elem()
 		val = convertStringAsType(value, elm.Type())
 		if elm.CanSet() && val.IsValid() {
-			if elm.Kind() == reflect.Ptr {
+			for elm.Kind() == reflect.Ptr {
 				elm.Set(reflect.New(elm.Type().Elem()))
 				elm = elm.Elem()
 			}
-- 
2.43.0


From 1efd19d58f0c3e12dc0d7a905c5741b4a9ae5703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 40/82] fix: the redirect to a directory must not lead to
 another host

---
 static-serve/static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-serve/static.go b/static-serve/static.go
index 5b58911..8fab537 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -106,8 +106,9 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 		if fi.IsDir() {
 			// redirect if missing trailing slash
 			if !strings.HasSuffix(req.URL.Path, "/") {
+				// a path of several leading slashes would name another host
 				dest := url.URL{
-					Path:     req.URL.Path + "/",
+					Path:     strings.TrimRight("/"+strings.TrimLeft(req.URL.Path, "/"), "/") + "/",
 					RawQuery: req.URL.RawQuery,
 					Fragment: req.URL.Fragment,
 				}
-- 
2.43.0


From 686f27ae0139a7eda00446cff6d72a5632e8e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 41/82] fix: close the fallback file after serving it

---
 static-serve/static.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/static-serve/static.go b/static-serve/static.go
index 8fab537..eb2b86b 100755
--- a/static-serve/static.go
+++ b/static-serve/static.go
@@ -139,6 +139,7 @@ func ServeFilter(prefix, directory string, opts ...StaticOption) interface{} {
 					err = er
 					return
 				}
+				defer f.Close()
 				err = nil
 			}
 			if err != nil {
-- 
2.43.0


From 073c8ff6503871a20a82fff641931a9a9feabb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 42/82] fix: ToStr of an empty string or of bytes must give
 them exactly

---
 app_util.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/app_util.go b/app_util.go
index 992b1da..5ce2942 100755
--- a/app_util.go
+++ b/app_util.go
@@ -168,11 +168,17 @@ func ToStr(value interface{}) (s string) {
 	case reflect.String:
 		s = val.String()
 	case reflect.Array, reflect.Slice:
-		if val.Type().Elem().Kind() == reflect.Uint8 {
-			s = string(val.Bytes())
+		if val.Type().Elem().Kind() != reflect.Uint8 {
+			return fmt.Sprint(value)
 		}
-	}
-	if s == "" {
+		if val.Kind() == reflect.Array && !val.CanAddr() {
+			// Bytes needs an addressable array
+			arr := reflect.New(val.Type()).Elem()
+			arr.Set(val)
+			val = arr
+		}
+		s = string(val.Bytes())
+	default:
 		s = fmt.Sprint(value)
 	}
 	return s
-- 
2.43.0


From 3645ff09f0abd8e82306d6cab66f82100c13de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 43/82] fix: ToStr of other values must show the value itself

---
 utils/converter.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utils/converter.go b/utils/converter.go
index 4ff74b7..2146b31 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -173,11 +173,10 @@ func ToStr(value interface{}, args ...int) (s string) {
 	case reflect.String:
 		s = val.String()
 	default:
-		if v, ok := value.([]byte); ok {
-			// TODO should use reflect rewrite
-			s = string(v)
+		if val.Kind() == reflect.Slice && val.Type().Elem().Kind() == reflect.Uint8 {
+			s = string(val.Bytes())
 		} else {
-			s = fmt.Sprintf("%#v", v)
+			s = fmt.Sprintf("%#v", value)
 		}
 	}
 	return s
-- 
2.43.0


From 221329a58a9e014a55a3fd404a1fd0e59c1f98cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 44/82] fix: ToInt64 must reject a value that does not fit

---
 utils/converter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/converter.go b/utils/converter.go
index 2146b31..b4db46b 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -4,6 +4,7 @@ import (
 	"crypto/md5"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 )
@@ -189,6 +190,10 @@ func ToInt64(value interface{}) (d int64, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		d = val.Int()
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if val.Uint() > math.MaxInt64 {
+			err = fmt.Errorf("ToInt64 value `%d` out of range", val.Uint())
+			return
+		}
 		d = int64(val.Uint())
 	default:
 		err = fmt.Errorf("ToInt64 need numeric not `%T`", value)
-- 
2.43.0


From 2af3467ddc6e69d982194018f9838f5a7248ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 45/82] fix: a failed number conversion must not give the
 nearest number

---
 utils/converter.go          | 49 ++++++++++++++++++++++++++++---------
 utils/converter_value_to.go | 24 +++++++++---------
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/utils/converter.go b/utils/converter.go
index b4db46b..f3423e3 100755
--- a/utils/converter.go
+++ b/utils/converter.go
@@ -12,6 +12,31 @@ import (
 // convert string to specify type
 type StrTo string
 
+// parse numbers, a text which does not fit gives an error and zero
+func parseInt(s string, bitSize int) (int64, error) {
+	v, err := strconv.ParseInt(s, 10, bitSize)
+	if err != nil {
+		return 0, err
+	}
+	return v, nil
+}
+
+func parseUint(s string, bitSize int) (uint64, error) {
+	v, err := strconv.ParseUint(s, 10, bitSize)
+	if err != nil {
+		return 0, err
+	}
+	return v, nil
+}
+
+func parseFloat(s string, bitSize int) (float64, error) {
+	v, err := strconv.ParseFloat(s, bitSize)
+	if err != nil {
+		return 0, err
+	}
+	return v, nil
+}
+
 func (f StrTo) Bool() (bool, error) {
 	if f == "on" {
 		return true, nil
@@ -20,61 +45,61 @@ func (f StrTo) Bool() (bool, error) {
 }
 
 func (f StrTo) Float32() (float32, error) {
-	v, err := strconv.ParseFloat(f.String(), 32)
+	v, err := parseFloat(f.String(), 32)
 	return float32(v), err
 }
 
 func (f StrTo) Float64() (float64, error) {
-	return strconv.ParseFloat(f.String(), 64)
+	return parseFloat(f.String(), 64)
 }
 
 func (f StrTo) Int() (int, error) {
-	v, err := strconv.ParseInt(f.String(), 10, 64)
+	v, err := parseInt(f.String(), 64)
 	return int(v), err
 }
 
 func (f StrTo) Int8() (int8, error) {
-	v, err := strconv.ParseInt(f.String(), 10, 8)
+	v, err := parseInt(f.String(), 8)
 	return int8(v), err
 }
 
 func (f StrTo) Int16() (int16, error) {
-	v, err := strconv.ParseInt(f.String(), 10, 16)
+	v, err := parseInt(f.String(), 16)
 	return int16(v), err
 }
 
 func (f StrTo) Int32() (int32, error) {
-	v, err := strconv.ParseInt(f.String(), 10, 32)
+	v, err := parseInt(f.String(), 32)
 	return int32(v), err
 }
 
 func (f StrTo) Int64() (int64, error) {
-	v, err := strconv.ParseInt(f.String(), 10, 64)
+	v, err := parseInt(f.String(), 64)
 	return int64(v), err
 }
 
 func (f StrTo) Uint() (uint, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 64)
+	v, err := parseUint(f.String(), 64)
 	return uint(v), err
 }
 
 func (f StrTo) Uint8() (uint8, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 8)
+	v, err := parseUint(f.String(), 8)
 	return uint8(v), err
 }
 
 func (f StrTo) Uint16() (uint16, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 16)
+	v, err := parseUint(f.String(), 16)
 	return uint16(v), err
 }
 
 func (f StrTo) Uint32() (uint32, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 32)
+	v, err := parseUint(f.String(), 32)
 	return uint32(v), err
 }
 
 func (f StrTo) Uint64() (uint64, error) {
-	v, err := strconv.ParseUint(f.String(), 10, 64)
+	v, err := parseUint(f.String(), 64)
 	return uint64(v), err
 }
 
diff --git a/utils/converter_value_to.go b/utils/converter_value_to.go
index b0ea893..fda61aa 100755
--- a/utils/converter_value_to.go
+++ b/utils/converter_value_to.go
@@ -25,7 +25,7 @@ func (v *Value) Float32() (float32, error) {
 	if ret, ok := v.value.(float32); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseFloat(v.String(), 32)
+	value, err := parseFloat(v.String(), 32)
 	return float32(value), err
 }
 
@@ -33,14 +33,14 @@ func (v *Value) Float64() (float64, error) {
 	if ret, ok := v.value.(float64); ok {
 		return ret, nil
 	}
-	return strconv.ParseFloat(v.String(), 64)
+	return parseFloat(v.String(), 64)
 }
 
 func (v *Value) Int() (int, error) {
 	if ret, ok := v.value.(int); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseInt(v.String(), 10, 64)
+	value, err := parseInt(v.String(), 64)
 	return int(value), err
 }
 
@@ -48,7 +48,7 @@ func (v *Value) Int8() (int8, error) {
 	if ret, ok := v.value.(int8); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseInt(v.String(), 10, 8)
+	value, err := parseInt(v.String(), 8)
 	return int8(value), err
 }
 
@@ -56,7 +56,7 @@ func (v *Value) Int16() (int16, error) {
 	if ret, ok := v.value.(int16); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseInt(v.String(), 10, 16)
+	value, err := parseInt(v.String(), 16)
 	return int16(value), err
 }
 
@@ -64,7 +64,7 @@ func (v *Value) Int32() (int32, error) {
 	if ret, ok := v.value.(int32); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseInt(v.String(), 10, 32)
+	value, err := parseInt(v.String(), 32)
 	return int32(value), err
 }
 
@@ -72,7 +72,7 @@ func (v *Value) Int64() (int64, error) {
 	if ret, ok := v.value.(int64); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseInt(v.String(), 10, 64)
+	value, err := parseInt(v.String(), 64)
 	return int64(value), err
 }
 
@@ -80,7 +80,7 @@ func (v *Value) Uint() (uint, error) {
 	if ret, ok := v.value.(uint); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 64)
+	value, err := parseUint(v.String(), 64)
 	return uint(value), err
 }
 
@@ -88,7 +88,7 @@ func (v *Value) Uint8() (uint8, error) {
 	if ret, ok := v.value.(uint8); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 8)
+	value, err := parseUint(v.String(), 8)
 	return uint8(value), err
 }
 
@@ -96,7 +96,7 @@ func (v *Value) Uint16() (uint16, error) {
 	if ret, ok := v.value.(uint16); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 16)
+	value, err := parseUint(v.String(), 16)
 	return uint16(value), err
 }
 
@@ -104,7 +104,7 @@ func (v *Value) Uint32() (uint32, error) {
 	if ret, ok := v.value.(uint32); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 32)
+	value, err := parseUint(v.String(), 32)
 	return uint32(value), err
 }
 
@@ -112,7 +112,7 @@ func (v *Value) Uint64() (uint64, error) {
 	if ret, ok := v.value.(uint64); ok {
 		return ret, nil
 	}
-	value, err := strconv.ParseUint(v.String(), 10, 64)
+	value, err := parseUint(v.String(), 64)
 	return uint64(value), err
 }
 
-- 
2.43.0


From 262ca1b735b1229ad75f2e0be21eec846ffdfaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 46/82] fix: an alphabet of 256 characters must not divide by
 zero

---
 utils/rand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rand.go b/utils/rand.go
index a1511ec..c02385f 100755
--- a/utils/rand.go
+++ b/utils/rand.go
@@ -26,7 +26,7 @@ func RandomCreateBytes(n int, alphabets ...byte) ([]byte, error) {
 		return nil, err
 	}
 	for i, b := range bytes {
-		bytes[i] = alphabets[b%byte(len(alphabets))]
+		bytes[i] = alphabets[int(b)%len(alphabets)]
 	}
 	return bytes, nil
 }
-- 
2.43.0


From e6ed2c06abfcbd4560ff3a54ae254cfbb5ddb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 47/82] fix: context values must be told apart by their exact
 type

---
 utils/context.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/utils/context.go b/utils/context.go
index f2f28b5..9c79864 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -12,13 +12,33 @@ var (
 
 type key string
 
-func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
+// ctxKey keeps types apart which have the same name, or none
+type ctxKey struct {
+	key key
+	typ reflect.Type
+}
+
+func makeCtxKey(value interface{}, extraName ...string) ctxKey {
 	k := ctxValueToKey(value, extraName...)
+	return ctxKey{key: k, typ: indirectElem(reflect.TypeOf(value))}
+}
+
+// indirectElem is the type A of *A or **A
+func indirectElem(typ reflect.Type) reflect.Type {
+	elm := typ.Elem()
+	if elm.Kind() == reflect.Ptr {
+		elm = elm.Elem()
+	}
+	return elm
+}
+
+func CtxWithValue(ctx context.Context, value interface{}, extraName ...string) context.Context {
+	k := makeCtxKey(value, extraName...)
 	return context.WithValue(ctx, k, value)
 }
 
 func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) error {
-	k := ctxValueToKey(value, extraName...)
+	k := makeCtxKey(value, extraName...)
 	inf := ctx.Value(k)
 	tarElm := reflect.ValueOf(value).Elem()
 	if !tarElm.CanSet() {
-- 
2.43.0


From 5f6af29a3c7cc75e4d3fa7641ea5f1b1fd9a0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 48/82] fix: finding an attached nil must not panic or leave
 the target as it was

---
 utils/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/context.go b/utils/context.go
index 9c79864..5b41aae 100755
--- a/utils/context.go
+++ b/utils/context.go
@@ -49,9 +49,14 @@ func CtxFindValue(ctx context.Context, value interface{}, extraName ...string) e
 	}
 	val := reflect.ValueOf(inf)
 	if val.IsNil() {
+		tarElm.Set(reflect.Zero(tarElm.Type()))
 		return nil
 	}
 	elm := val.Elem()
+	if elm.Kind() == reflect.Ptr && elm.IsNil() {
+		tarElm.Set(reflect.Zero(tarElm.Type()))
+		return nil
+	}
 	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
 		tarElm.Set(elm.Addr())
 	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
-- 
2.43.0


From 6d1130492db092c4103fd087bd05a46d1be495de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 49/82] fix: Recover must log the place of its caller

---
 log.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/log.go b/log.go
index 9e2dd25..8a3ec25 100755
--- a/log.go
+++ b/log.go
@@ -237,9 +237,9 @@ func (l *baseLogger) Recover(f func(), level ...Level) (err interface{}) {
 	defer func() {
 		if err = recover(); err != nil {
 			if len(level) > 0 {
-				l.write(level[0], err, LineOpt{Stack: true, Depth: 4})
+				l.write(level[0], err, LineOpt{Stack: true, Depth: recoverDepth()})
 			} else {
-				l.Error(err, LineOpt{Stack: true, Depth: 5})
+				l.write(LevelError, err, LineOpt{Stack: true, Depth: recoverDepth()})
 			}
 		}
 	}()
@@ -249,6 +249,17 @@ func (l *baseLogger) Recover(f func(), level ...Level) (err interface{}) {
 	return nil
 }
 
+// recoverDepth counts the frames between the deferred function of Recover
+// and Recover itself, they depend on the kind of panic
+func recoverDepth() int {
+	for n := 1; ; n++ {
+		pc, _, _, ok := runtime.Caller(n + 1)
+		if !ok || strings.HasSuffix(runtime.FuncForPC(pc).Name(), ".(*baseLogger).Recover") {
+			return n
+		}
+	}
+}
+
 func (l *baseLogger) parseValues(values []interface{}) (v []interface{}, opt LineOpt) {
 	opt.Depth = l.depth
 	v = values
-- 
2.43.0


From 67d73fa7685f73973888961e9fef63888abf5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 50/82] fix: request ids made at the same moment must differ

---
 request-logger/reqid.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/request-logger/reqid.go b/request-logger/reqid.go
index 8eb2412..d783297 100755
--- a/request-logger/reqid.go
+++ b/request-logger/reqid.go
@@ -9,6 +9,7 @@ import (
 	"runtime"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,10 +18,26 @@ var rnd = uint32(rand.New(rand.NewSource(time.Now().UnixNano())).Intn(999999999)
 func NewReqId() string {
 	var b [12]byte
 	binary.LittleEndian.PutUint32(b[:], rnd)
-	binary.LittleEndian.PutUint64(b[4:], uint64(time.Now().UnixNano()))
+	binary.LittleEndian.PutUint64(b[4:], uint64(uniqueNano()))
 	return base64.URLEncoding.EncodeToString(b[:])
 }
 
+var lastNano int64
+
+// uniqueNano is the current time, or a little later if that was given already
+func uniqueNano() int64 {
+	for {
+		last := atomic.LoadInt64(&lastNano)
+		now := time.Now().UnixNano()
+		if now <= last {
+			now = last + 1
+		}
+		if atomic.CompareAndSwapInt64(&lastNano, last, now) {
+			return now
+		}
+	}
+}
+
 func DecodeReqId(reqId string) (uint, int64) {
 	b, err := base64.URLEncoding.DecodeString(reqId)
 	if err != nil || len(b) < 12 {
-- 
2.43.0


From 32a934312f7dcbdfd57ffd3c95764edeec79c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 51/82] fix: the logged client must not be a cut IPv6 address

---
 request-logger/logger.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index e86c300..7de1896 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -2,6 +2,7 @@ package reqlogger
 
 import (
 	"fmt"
+	"net"
 	"net/http"
 	"strings"
 	"time"
@@ -117,15 +118,26 @@ func realIp(req *http.Request) string {
 
 	parts := strings.Split(req.Header.Get(HeaderXForwardedFor), ",")
 	if len(parts) > 0 && parts[0] != "" {
-		parts = strings.Split(parts[0], ":")
-		return strings.TrimSpace(parts[0])
+		return stripPort(parts[0])
 	}
 
-	host := req.RemoteAddr
-	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
-		host = host[:idx]
+	return stripPort(req.RemoteAddr)
+}
+
+// stripPort removes the port and the brackets of an address.
+func stripPort(addr string) string {
+	addr = strings.TrimSpace(addr)
+	if host, _, err := net.SplitHostPort(addr); err == nil {
+		return host
+	}
+	if strings.HasPrefix(addr, "[") && strings.HasSuffix(addr, "]") {
+		return addr[1 : len(addr)-1]
+	}
+	if strings.Count(addr, ":") > 1 {
+		// IPv6 without port
+		return addr
 	}
-	return host
+	return strings.Split(addr, ":")[0]
 }
 
 func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger) *http.Request {
-- 
2.43.0


From d8b91e402cef52a1742c7cd5dbbf11be04ac7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 52/82] fix: Worker.Wait must see the error of the last task

---
 utils/worker.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/worker.go b/utils/worker.go
index dd68468..823f9c3 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -34,8 +34,10 @@ func (w *Worker) RunTask(task interface{}) {
 
 func (w *Worker) Wait() (err error) {
 	w.wg.Wait()
+	w.rw.Lock()
 	err = w.err
 	w.err = nil
+	w.rw.Unlock()
 	return
 }
 
@@ -52,15 +54,20 @@ func (w *Worker) run(task interface{}) {
 		w.done()
 	case func() error:
 		err := t()
-		w.done()
 		if err != nil {
+			// the slot must be free before the lock can be taken, and the
+			// error must be known before the task counts as finished
+			<-w.pools
 			w.rw.Lock()
 			if !w.closed {
 				w.close()
 				w.err = err
 			}
 			w.rw.Unlock()
+			w.wg.Done()
+			return
 		}
+		w.done()
 	}
 }
 
-- 
2.43.0


From 6b14060e1c81b8530aa84e9768e4ae0180cb5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 53/82] fix: Worker.Close in a task must not deadlock with a
 waiting submitter

---
 utils/worker.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 823f9c3..625f568 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -26,9 +26,11 @@ func (w *Worker) RunTask(task interface{}) {
 		return
 	}
 	w.wg.Add(1)
-	w.pools <- true
 	w.rw.RUnlock()
 
+	// accepted, wait for a slot without holding the lock
+	w.pools <- true
+
 	go w.run(task)
 }
 
@@ -55,17 +57,13 @@ func (w *Worker) run(task interface{}) {
 	case func() error:
 		err := t()
 		if err != nil {
-			// the slot must be free before the lock can be taken, and the
-			// error must be known before the task counts as finished
-			<-w.pools
+			// the error must be known before the task counts as finished
 			w.rw.Lock()
 			if !w.closed {
 				w.close()
 				w.err = err
 			}
 			w.rw.Unlock()
-			w.wg.Done()
-			return
 		}
 		w.done()
 	}
@@ -81,7 +79,6 @@ func (w *Worker) close() {
 		return
 	}
 	w.closed = true
-	close(w.pools)
 }
 
 func NewWorker(nums int) *Worker {
-- 
2.43.0


From 4cea9982166cd8762648ffe38d42c738baa5b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 54/82] fix: an error after Worker.Close must still be reported
 by Wait

---
 utils/worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 625f568..3d5f57c 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -59,8 +59,8 @@ func (w *Worker) run(task interface{}) {
 		if err != nil {
 			// the error must be known before the task counts as finished
 			w.rw.Lock()
-			if !w.closed {
-				w.close()
+			w.close()
+			if w.err == nil {
 				w.err = err
 			}
 			w.rw.Unlock()
-- 
2.43.0


From 4d2cdbc1111932e172c4d89065ec5846583c6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 55/82] fix: Worker tasks may be added while another goroutine
 waits

---
 utils/worker.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/utils/worker.go b/utils/worker.go
index 3d5f57c..7b3652b 100755
--- a/utils/worker.go
+++ b/utils/worker.go
@@ -11,7 +11,8 @@ import (
 // woker 在 wait 结束后，可以再次使用 RunTask 增加 task
 type Worker struct {
 	rw     sync.RWMutex
-	wg     sync.WaitGroup
+	idle   *sync.Cond // signaled when no accepted task is left
+	tasks  int        // accepted and not finished
 	err    error
 	closed bool
 
@@ -20,13 +21,13 @@ type Worker struct {
 }
 
 func (w *Worker) RunTask(task interface{}) {
-	w.rw.RLock()
+	w.rw.Lock()
 	if w.closed {
-		w.rw.RUnlock()
+		w.rw.Unlock()
 		return
 	}
-	w.wg.Add(1)
-	w.rw.RUnlock()
+	w.tasks++
+	w.rw.Unlock()
 
 	// accepted, wait for a slot without holding the lock
 	w.pools <- true
@@ -35,8 +36,11 @@ func (w *Worker) RunTask(task interface{}) {
 }
 
 func (w *Worker) Wait() (err error) {
-	w.wg.Wait()
+	// a WaitGroup does not allow new tasks while somebody waits
 	w.rw.Lock()
+	for w.tasks > 0 {
+		w.idle.Wait()
+	}
 	err = w.err
 	w.err = nil
 	w.rw.Unlock()
@@ -71,7 +75,12 @@ func (w *Worker) run(task interface{}) {
 
 func (w *Worker) done() {
 	<-w.pools
-	w.wg.Done()
+	w.rw.Lock()
+	w.tasks--
+	if w.tasks == 0 {
+		w.idle.Broadcast()
+	}
+	w.rw.Unlock()
 }
 
 func (w *Worker) close() {
@@ -83,6 +92,7 @@ func (w *Worker) close() {
 
 func NewWorker(nums int) *Worker {
 	wk := new(Worker)
+	wk.idle = sync.NewCond(&wk.rw)
 	wk.pools = make(chan bool, nums)
 	return wk
 }
-- 
2.43.0


From 515e15b5a868b733daf34541f0c26bc8c423dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 56/82] fix: digits must not move between the content and the
 time of a signed value

---
 sessions/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index 2bf3d3b..d3ab681 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -52,7 +52,7 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 	}
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	_, err = h.Write([]byte(vRaw + vCreated))
+	_, err = h.Write([]byte(vRaw + COOKIE_VALUE_SPLIT + vCreated))
 	if err != nil {
 		return
 	}
@@ -75,7 +75,7 @@ func EncodeSecureValue(raw string, secretKey string, createdAt time.Time) (value
 	timeValue := strconv.FormatInt(createdAt.UnixNano(), 10)
 
 	h := hmac.New(sha1.New, []byte(secretKey))
-	if _, err := h.Write([]byte(raw + timeValue)); err != nil {
+	if _, err := h.Write([]byte(raw + COOKIE_VALUE_SPLIT + timeValue)); err != nil {
 		return
 	}
 
-- 
2.43.0


From 80fe45e5eb8fa304af6cd0f45877bcb0ec5d186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 57/82] fix: only the exact text of a signed value must be
 accepted

---
 sessions/utils.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sessions/utils.go b/sessions/utils.go
index d3ab681..3f61c09 100755
--- a/sessions/utils.go
+++ b/sessions/utils.go
@@ -3,6 +3,7 @@ package sessions
 import (
 	"crypto/hmac"
 	"crypto/sha1"
+	"crypto/subtle"
 	"encoding/base64"
 	"encoding/hex"
 	"net/http"
@@ -25,7 +26,11 @@ func CreateSid() (sid string) {
 }
 
 func DecodeSecureValue(value string, secretKey string) (raw string, createdAt time.Time, ok bool) {
-	rawBytes, _ := base64.URLEncoding.DecodeString(value)
+	encoded := value
+	rawBytes, err := base64.URLEncoding.DecodeString(encoded)
+	if err != nil {
+		return
+	}
 	value = string(rawBytes)
 
 	parts := strings.SplitN(value, COOKIE_VALUE_SPLIT, 3)
@@ -41,12 +46,12 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 		return
 	}
 
-	vTime, _ := strconv.ParseInt(vCreated, 10, 64)
-	if vTime <= 0 {
+	vTime, err := strconv.ParseInt(vCreated, 10, 64)
+	if err != nil || vTime <= 0 {
 		return
 	}
 
-	vRaw, err := url.QueryUnescape(vRaw)
+	vRaw, err = url.QueryUnescape(vRaw)
 	if err != nil {
 		return
 	}
@@ -61,8 +66,16 @@ func DecodeSecureValue(value string, secretKey string) (raw string, createdAt ti
 		return
 	}
 
+	vCreatedAt := time.Unix(0, vTime)
+
+	// there is one way to write a signed value, reject all variations of it
+	expected, valid := EncodeSecureValue(vRaw, secretKey, vCreatedAt)
+	if !valid || subtle.ConstantTimeCompare([]byte(expected), []byte(encoded)) != 1 {
+		return
+	}
+
 	raw = vRaw
-	createdAt = time.Unix(0, vTime)
+	createdAt = vCreatedAt
 	ok = true
 	return
 }
-- 
2.43.0


From 7dd2c5a290276243b780527906493d66ad9ef6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 58/82] fix: HasRemember must not report a signed value of
 another form as present

---
 sessions/remember.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sessions/remember.go b/sessions/remember.go
index 490ae59..a0faef5 100755
--- a/sessions/remember.go
+++ b/sessions/remember.go
@@ -27,6 +27,7 @@ func (m *SessionManager) HasRemember(config *CookieConfig, r *http.Request) (psk
 
 	parts := strings.SplitN(value, COOKIE_VALUE_PARTS_SPLIT, 2)
 	if len(parts) != 2 {
+		ok = false
 		return
 	}
 
-- 
2.43.0


From cf6f5aef0a355e1854b7382aaa194dc577f39d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 59/82] fix: counting with a missing key in redis must not
 create it

---
 caches/provider_redis.go | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index eff26b0..a582b95 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -110,17 +110,7 @@ func (p *redisProvide) Incr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-
-	conn, err := p.Client.Get()
-	if err != nil {
-		return
-	}
-	defer p.Client.Put(conn)
-
-	resp := conn.Cmd("INCRBY", key, cnt)
-	err = resp.Err
-	err = p.handleError(err)
-	return
+	return p.count("INCRBY", key, cnt)
 }
 
 func (p *redisProvide) Decr(key string, params ...int) (err error) {
@@ -129,17 +119,51 @@ func (p *redisProvide) Decr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
+	return p.count("DECRBY", key, cnt)
+}
 
+// count with an existing key only: redis would create a missing or expired one,
+// which then never expires
+func (p *redisProvide) count(command, key string, cnt int) (err error) {
 	conn, err := p.Client.Get()
 	if err != nil {
 		return
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("DECRBY", key, cnt)
-	err = resp.Err
-	err = p.handleError(err)
-	return
+	for {
+		if err = conn.Cmd("WATCH", key).Err; err != nil {
+			return
+		}
+
+		var exists int
+		exists, err = conn.Cmd("EXISTS", key).Int()
+		if err == nil && exists == 0 {
+			err = ErrMissedKey
+		}
+		if err != nil {
+			conn.Cmd("UNWATCH")
+			return
+		}
+
+		conn.PipeAppend("MULTI")
+		conn.PipeAppend(command, key, cnt)
+		conn.PipeAppend("EXEC")
+		conn.PipeResp()
+		conn.PipeResp()
+		resp := conn.PipeResp()
+		if resp.IsType(redis.Nil) {
+			// the key has changed in the meantime
+			continue
+		}
+
+		var results []*redis.Resp
+		results, err = resp.Array()
+		if err == nil && len(results) > 0 {
+			err = results[0].Err
+		}
+		return
+	}
 }
 
 func (p *redisProvide) Has(key string) (exists bool, err error) {
-- 
2.43.0


From 45ceba25b8b7dacf0ddcec0e4763a46415f3af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 60/82] fix: touching a redis key to never expire must not
 delete it

---
 caches/provider_redis.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/caches/provider_redis.go b/caches/provider_redis.go
index a582b95..cb4078c 100755
--- a/caches/provider_redis.go
+++ b/caches/provider_redis.go
@@ -71,8 +71,16 @@ func (p *redisProvide) Touch(key string, params ...int) (err error) {
 	}
 	defer p.Client.Put(conn)
 
-	resp := conn.Cmd("EXPIRE", key, timeout.Seconds())
-	touched, err := resp.Int()
+	var touched int
+	if timeout > 0 {
+		touched, err = conn.Cmd("EXPIRE", key, timeout.Seconds()).Int()
+	} else {
+		// never expires
+		touched, err = conn.Cmd("PERSIST", key).Int()
+		if err == nil && touched == 0 {
+			touched, err = conn.Cmd("EXISTS", key).Int()
+		}
+	}
 	if err != nil {
 		err = p.handleError(err)
 		return
-- 
2.43.0


From e26a74dd747c881183e8eaf80517002b7f20cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 61/82] fix: memcached timeouts of more than 30 days

---
 caches/provider_memcache.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index 07e6b7b..df5f027 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -1,6 +1,9 @@
 package caches
 
 import (
+	"math"
+	"time"
+
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
@@ -39,7 +42,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
 		Value:      []byte(utils.ToStr(val)),
-		Expiration: int32(timeout.Seconds()),
+		Expiration: mcExpiration(timeout),
 	})
 	return
 }
@@ -47,7 +50,7 @@ func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error)
 func (p *mcProvide) Touch(key string, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
-	err = p.Client.Touch(key, int32(timeout.Seconds()))
+	err = p.Client.Touch(key, mcExpiration(timeout))
 	err = p.handleError(err)
 	return
 }
@@ -99,6 +102,19 @@ func (p *mcProvide) GC() error {
 	return nil
 }
 
+// memcached takes a number of seconds beyond 30 days for a unix time
+func mcExpiration(timeout time.Duration) int32 {
+	secs := int64(timeout / time.Second)
+	if secs > 60*60*24*30 {
+		secs += time.Now().Unix()
+	}
+	if secs > math.MaxInt32 {
+		// later than what can be told, never expires
+		return 0
+	}
+	return int32(secs)
+}
+
 func (p *mcProvide) handleError(err error) error {
 	if err == memcache.ErrCacheMiss {
 		return ErrMissedKey
-- 
2.43.0


From 4e1dd2ddb4b2efcdfd8ef99576e6131516e5eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 62/82] fix: counting by a negative number in memcached

---
 caches/provider_memcache.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index df5f027..bd76242 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -68,9 +68,7 @@ func (p *mcProvide) Incr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Increment(key, uint64(cnt))
-	err = p.handleError(err)
-	return
+	return p.count(key, cnt)
 }
 
 func (p *mcProvide) Decr(key string, params ...int) (err error) {
@@ -79,7 +77,16 @@ func (p *mcProvide) Decr(key string, params ...int) (err error) {
 	if len(params) > 0 {
 		cnt = params[0]
 	}
-	_, err = p.Client.Decrement(key, uint64(cnt))
+	return p.count(key, -cnt)
+}
+
+// memcached counts by positive numbers only
+func (p *mcProvide) count(key string, cnt int) (err error) {
+	if cnt < 0 {
+		_, err = p.Client.Decrement(key, uint64(-cnt))
+	} else {
+		_, err = p.Client.Increment(key, uint64(cnt))
+	}
 	err = p.handleError(err)
 	return
 }
-- 
2.43.0


From f1b279a430e7e98d7829d404efd9d0fa487df25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 63/82] fix: expired mongodb entries are missed keys for every
 operation

---
 caches/provider_mgo.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index 95d82b1..ee04829 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -107,9 +107,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 		timeout := getTimeoutDurEx(params...)
 		expiredAt := time.Now().Add(timeout)
 
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.aliveKey(key), bson.M{
 			"$set": bson.M{
 				p.config.ExpiredAtField: expiredAt,
 			},
@@ -122,9 +120,7 @@ func (p *mgoProvide) Touch(key string, params ...int) (err error) {
 
 func (p *mgoProvide) Delete(key string) (err error) {
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Remove(bson.M{
-			p.config.KeyField: key,
-		})
+		er := c.Remove(p.aliveKey(key))
 		return er
 	})
 	err = p.handleError(err)
@@ -138,9 +134,7 @@ func (p *mgoProvide) Incr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.aliveKey(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -158,9 +152,7 @@ func (p *mgoProvide) Decr(key string, params ...int) (err error) {
 	}
 
 	err = p.connect(func(c *mgo.Collection) error {
-		er := c.Update(bson.M{
-			p.config.KeyField: key,
-		}, bson.M{
+		er := c.Update(p.aliveKey(key), bson.M{
 			"$inc": bson.M{
 				p.config.ValueField: cnt,
 			},
@@ -207,6 +199,16 @@ func (p *mgoProvide) GC() (err error) {
 	return
 }
 
+// query of a key which has not expired yet
+func (p *mgoProvide) aliveKey(key string) bson.M {
+	return bson.M{
+		p.config.KeyField: key,
+		p.config.ExpiredAtField: bson.M{
+			"$gt": time.Now(),
+		},
+	}
+}
+
 func (p *mgoProvide) fetchValues(key string) (values map[string]interface{}, err error) {
 	err = p.connect(func(c *mgo.Collection) error {
 		er := c.Find(bson.M{
-- 
2.43.0


From 8f9fc116ccfafc17619a9ef3b581f88f030afe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 64/82] fix: mongodb caches must give back the text of a value
 like the other caches

---
 caches/provider_mgo.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/caches/provider_mgo.go b/caches/provider_mgo.go
index ee04829..a4283fb 100755
--- a/caches/provider_mgo.go
+++ b/caches/provider_mgo.go
@@ -2,6 +2,8 @@ package caches
 
 import (
 	"fmt"
+	"math"
+	"reflect"
 	"time"
 
 	"github.com/globalsign/mgo"
@@ -94,7 +96,7 @@ func (p *mgoProvide) Set(key string, val interface{}, params ...int) (err error)
 			p.config.KeyField: key,
 		}, bson.M{
 			p.config.KeyField:       key,
-			p.config.ValueField:     val,
+			p.config.ValueField:     mgoValue(val),
 			p.config.ExpiredAtField: expiredAt,
 		})
 		return er
@@ -199,6 +201,24 @@ func (p *mgoProvide) GC() (err error) {
 	return
 }
 
+// values which come back from mongodb as the same text are stored as they are
+func mgoValue(val interface{}) interface{} {
+	switch v := reflect.ValueOf(val); v.Kind() {
+	case reflect.Bool, reflect.Float64, reflect.String,
+		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return val
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v.Uint() <= math.MaxInt64 {
+			return val
+		}
+	case reflect.Slice:
+		if v.Type().Elem().Kind() == reflect.Uint8 {
+			return val
+		}
+	}
+	return utils.ToStr(val)
+}
+
 // query of a key which has not expired yet
 func (p *mgoProvide) aliveKey(key string) bson.M {
 	return bson.M{
-- 
2.43.0


From ee4f78ef11bdcdaa5ad5a66efd31d0615bdcf0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 65/82] fix: memcached counters must not come back with spaces
 after counting down

---
 caches/provider_memcache.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/caches/provider_memcache.go b/caches/provider_memcache.go
index bd76242..02bd9da 100755
--- a/caches/provider_memcache.go
+++ b/caches/provider_memcache.go
@@ -2,12 +2,17 @@ package caches
 
 import (
 	"math"
+	"strings"
 	"time"
 
 	"github.com/bradfitz/gomemcache/memcache"
 	"github.com/wujiu2020/strip/utils"
 )
 
+// marks values stored as digits only: when one gets shorter by counting down,
+// memcached fills it up with spaces
+const mcFlagCounter = 1
+
 type McConfig struct {
 	KeyPrefix string
 	Client    *memcache.Client
@@ -32,16 +37,26 @@ func (p *mcProvide) Get(key string) (value utils.StrTo, err error) {
 		err = p.handleError(err)
 		return
 	}
-	value = utils.StrTo(string(item.Value))
+	text := string(item.Value)
+	if item.Flags&mcFlagCounter != 0 {
+		text = strings.TrimRight(text, " ")
+	}
+	value = utils.StrTo(text)
 	return
 }
 
 func (p *mcProvide) Set(key string, val interface{}, params ...int) (err error) {
 	key = p.KeyPrefix + key
 	timeout := getTimeoutDur(params...)
+	text := utils.ToStr(val)
+	var flags uint32
+	if text != "" && strings.Trim(text, "0123456789") == "" {
+		flags = mcFlagCounter
+	}
 	err = p.Client.Set(&memcache.Item{
 		Key:        key,
-		Value:      []byte(utils.ToStr(val)),
+		Value:      []byte(text),
+		Flags:      flags,
 		Expiration: mcExpiration(timeout),
 	})
 	return
-- 
2.43.0


From 87c17922ab084eea805586dd41d5c8b6ce6d9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 66/82] fix: very long cache timeouts must not overflow

---
 caches/caches.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/caches/caches.go b/caches/caches.go
index 37cb4a2..f1641ad 100755
--- a/caches/caches.go
+++ b/caches/caches.go
@@ -2,6 +2,7 @@ package caches
 
 import (
 	"errors"
+	"math"
 	"time"
 
 	"github.com/wujiu2020/strip/utils"
@@ -9,6 +10,9 @@ import (
 
 const (
 	DefaultTimeout = time.Minute
+
+	// the longest time.Duration in seconds
+	maxTimeoutSeconds = math.MaxInt64 / int64(time.Second)
 )
 
 var (
@@ -32,6 +36,9 @@ func getTimeoutDur(params ...int) time.Duration {
 	if len(params) > 0 {
 		switch {
 		case params[0] > 0:
+			if int64(params[0]) > maxTimeoutSeconds {
+				return time.Duration(maxTimeoutSeconds) * time.Second
+			}
 			timeout = time.Duration(params[0]) * time.Second
 			return timeout
 		default:
-- 
2.43.0


From 5fc3d445cb701445bc047f649c878b6d22ff772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 67/82] fix: a new session must not share the map of its
 initial values

---
 sessions/provider.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 6f3bd23..0336b9d 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -23,15 +23,15 @@ type sessStore struct {
 
 func newSessStore(sid string, params ...map[string]interface{}) *sessStore {
 	store := &sessStore{
-		Sid: sid,
+		Sid:    sid,
+		Values: make(map[string]interface{}),
 	}
 
+	// the map belongs to the caller, which may give it to several sessions
 	if len(params) > 0 {
-		store.Values = params[0]
-	}
-
-	if store.Values == nil {
-		store.Values = make(map[string]interface{})
+		for key, value := range params[0] {
+			store.Values[key] = value
+		}
 	}
 	return store
 }
-- 
2.43.0


From 123371531b99d7293265da83da5b43079724593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 68/82] fix: SessionManager.Regenerate must return the error of
 a failing store

---
 sessions/manager.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index 788bbec..a5aed33 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -112,13 +112,12 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 	sid := CreateSid()
 	sess, err = m.provider.Regenerate(oldsid, sid)
 
-	switch err {
-	case ErrNotFoundSession:
+	if err == ErrNotFoundSession {
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
-		if err != nil {
-			return
-		}
+	}
+	if err != nil {
+		return
 	}
 
 	createdAt = time.Now()
-- 
2.43.0


From efbaa4623ec4fa63d5510ec582a402af50cd3d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 69/82] fix: a session whose save failed must stay changed

---
 sessions/provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sessions/provider.go b/sessions/provider.go
index 0336b9d..25f7135 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -113,8 +113,11 @@ func (m *sessData) Flush() error {
 		return nil
 	}
 
+	if err := m.provider.save(m.store); err != nil {
+		return err
+	}
 	m.changed = false
-	return m.provider.save(m.store)
+	return nil
 }
 
 // destory session values in store
-- 
2.43.0


From 3a22461074c37b5738837e5b9cde39569130e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 70/82] fix: regenerating a session must report and survive a
 failing store

---
 sessions/manager.go  |  3 ++-
 sessions/provider.go | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sessions/manager.go b/sessions/manager.go
index a5aed33..bc0530d 100755
--- a/sessions/manager.go
+++ b/sessions/manager.go
@@ -116,10 +116,11 @@ func (m *SessionManager) Regenerate(config *CookieConfig, w http.ResponseWriter,
 		// 未找到时创建新的
 		sess, err = m.createSession(sid, params...)
 	}
-	if err != nil {
+	if err != nil && sess == nil {
 		return
 	}
 
+	// when only the old data could not be deleted, the new sid is the one to use
 	createdAt = time.Now()
 	m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)
 	return
diff --git a/sessions/provider.go b/sessions/provider.go
index 25f7135..95bde51 100755
--- a/sessions/provider.go
+++ b/sessions/provider.go
@@ -186,8 +186,17 @@ func (p *sessProvide) Regenerate(old string, sid string) (sess SessionStore, err
 		return
 	}
 
-	p.Destroy(old)
-	return p.Read(sid)
+	sess, err = p.Read(sid)
+	if err != nil {
+		return
+	}
+
+	// the old data goes last, a failure before leaves it as it was
+	err = p.Destroy(old)
+	if err == caches.ErrMissedKey {
+		err = nil
+	}
+	return
 }
 
 func (p *sessProvide) Destroy(sid string) (err error) {
-- 
2.43.0


From 18d38bdc3927c642194538e1c2c6b51236958d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 71/82] fix: HEAD must follow the last GET handler of a route

---
 router.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/router.go b/router.go
index ce3cc4d..6606579 100755
--- a/router.go
+++ b/router.go
@@ -150,6 +150,10 @@ func (r *routeRoot) handle(ctx Context, rw http.ResponseWriter, req *http.Reques
 	}
 
 	routeAction := route.action[method]
+	if routeAction == nil && method == HEAD {
+		// default use GET route for HEAD method
+		routeAction = route.action[GET]
+	}
 	actionFunc := method.action()
 
 	if routeAction != nil {
@@ -328,11 +332,6 @@ func (r *route) configRoutes(args routeArgs) {
 		r.action[method] = newRouteAction(mArgs.ctroler, act, actFilters)
 	}
 
-	// default use GET route for HEAD method
-	if r.action[HEAD] == nil && r.action[GET] != nil {
-		r.action[HEAD] = r.action[GET]
-	}
-
 	if allMethod != nil {
 		act := string(allArgs.action)
 		if act == "" && !allArgs.ctroler.isFunc() {
-- 
2.43.0


From ffe6e4b26e3fc8ec339a7d2ef3f48fa6bd21746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 72/82] fix: the scheme of a TLS connection is https

---
 params/real.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/params/real.go b/params/real.go
index 18ebab3..9bd62c2 100755
--- a/params/real.go
+++ b/params/real.go
@@ -65,6 +65,10 @@ func RealProto(req *http.Request) (proto string) {
 	if proto == "" {
 		proto = req.URL.Scheme
 	}
+	// the URL of a server request has no scheme
+	if proto == "" && req.TLS != nil {
+		proto = "https"
+	}
 	if proto == "" {
 		proto = "http"
 	}
-- 
2.43.0


From 34d07f813312ff3ec594b6a6c3026e1004bbdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 73/82] fix: request logger drops what other filters have put
 into the context

---
 request-logger/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request-logger/logger.go b/request-logger/logger.go
index 7de1896..593c0b4 100755
--- a/request-logger/logger.go
+++ b/request-logger/logger.go
@@ -146,6 +146,7 @@ func setLoggerInContext(ctx strip.Context, req *http.Request, log strip.Logger)
 	req = req.WithContext(reqCtx)
 
 	ctx.Provide(req)
-	ctx.ReplaceContext(req.Context())
+	// keep what other filters have put into the context
+	ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &l))
 	return req
 }
-- 
2.43.0


From bf1bb9fa3ed3bcf4c2ede454e7dabcb573d466c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 74/82] fix: stack of a recovered panic starts behind the code
 which panicked

---
 recovery.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/recovery.go b/recovery.go
index a95df22..850cec8 100755
--- a/recovery.go
+++ b/recovery.go
@@ -5,6 +5,7 @@ import (
 	"html"
 	"net/http"
 	"os"
+	"runtime"
 	"strings"
 
 	"github.com/wujiu2020/strip/inject"
@@ -63,7 +64,7 @@ func RecoveryFilter() inject.Provider {
 	return func(ctx Context, config *Config) {
 		defer func() {
 			if err := recover(); err != nil {
-				stack := string(Stack(5))
+				stack := string(Stack(panicDepth()))
 
 				var log Logger
 				fErr := ctx.Find(&log, "")
@@ -100,6 +101,20 @@ func RecoveryFilter() inject.Provider {
 	}
 }
 
+// panicDepth counts the frames from the deferred function which recovers
+// to the code which panicked, they depend on the version of go
+func panicDepth() int {
+	for n := 1; ; n++ {
+		pc, _, _, ok := runtime.Caller(n)
+		if !ok {
+			return 1
+		}
+		if runtime.FuncForPC(pc).Name() == "runtime.gopanic" {
+			return n + 1
+		}
+	}
+}
+
 func styleStack(stack string) string {
 	stack = html.EscapeString(stack)
 	lines := strings.Split(stack, "\n")
-- 
2.43.0


From f392934fc0bcad318a79a4e3d537af616f09fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 75/82] fix: panic page takes the text of the panic for markup

---
 recovery.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recovery.go b/recovery.go
index 850cec8..55dd7b7 100755
--- a/recovery.go
+++ b/recovery.go
@@ -52,7 +52,7 @@ pre.message,
 </style>
 </head><body>
 <h1>PANIC: %s</h1>
-<pre class="message">%T: %#v</pre>
+<pre class="message">%s</pre>
 <div class="stack">%s</div>
 </body>
 </html>`
@@ -91,7 +91,9 @@ func RecoveryFilter() inject.Provider {
 				var body []byte
 				if config.RunMode.IsDev() {
 					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
-					body = []byte(fmt.Sprintf(panicHtml, err, err, err, err, styleStack(stack)))
+					text := html.EscapeString(fmt.Sprint(err))
+					message := html.EscapeString(fmt.Sprintf("%T: %#v", err, err))
+					body = []byte(fmt.Sprintf(panicHtml, text, text, message, styleStack(stack)))
 					rw.Write(body)
 				}
 			}
-- 
2.43.0


From f42a2af3a2076855a75513b6ebabdd90db1c4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 76/82] fix: Config.Find gives its default when no
 configuration is imported

---
 config.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config.go b/config.go
index eb25a60..898a3dc 100755
--- a/config.go
+++ b/config.go
@@ -59,14 +59,14 @@ func newConfig() *Config {
 }
 
 func (c *Config) Find(name string, defaultValue ...string) string {
+	value := ""
 	if c.Configer != nil {
-		value := c.Configer.Find(name)
-		if value == "" && len(defaultValue) > 0 {
-			return defaultValue[0]
-		}
-		return value
+		value = c.Configer.Find(name)
+	}
+	if value == "" && len(defaultValue) > 0 {
+		return defaultValue[0]
 	}
-	return ""
+	return value
 }
 
 func (c *Config) Bind(ptr interface{}, name string) {
-- 
2.43.0


From 2dc8cefbd24f210f42df61d2d1f6ea2b9e129f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 77/82] fix: form values and files of a multipart body survive
 a malformed query

---
 params/params.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/params/params.go b/params/params.go
index dde5531..f74316a 100755
--- a/params/params.go
+++ b/params/params.go
@@ -72,12 +72,15 @@ func ParseParams(params *Params, maxMemory int64) error {
 		if maxMemory <= 0 {
 			maxMemory = DefaultMaxMemory
 		}
-		if err := req.ParseMultipartForm(maxMemory); err != nil {
-			return err
-		} else {
+		err := req.ParseMultipartForm(maxMemory)
+		// an error of the query leaves the body parsed
+		if req.MultipartForm != nil {
 			params.Form = req.MultipartForm.Value
 			params.Files = req.MultipartForm.File
 		}
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 4fd033b5d66e950a769e11d8ec7f27ecf6c7aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 78/82] fix: method handlers made of the same handler keep
 their own filters

---
 router_method.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/router_method.go b/router_method.go
index 18caec8..94e47e9 100755
--- a/router_method.go
+++ b/router_method.go
@@ -49,20 +49,21 @@ func (h methodParams) Action(name string) MethodHandler {
 	// ensure controller has action
 	rc := h[0].(routerController)
 	rc.ensureHasAction(name)
-	h[0] = rc
 
-	h = append(h, action(name))
-	return h
+	return h.with(action(name))
 }
 
 func (h methodParams) Filter(exempts ...interface{}) MethodHandler {
-	h = append(h, Filter(exempts...))
-	return h
+	return h.with(Filter(exempts...))
 }
 
 func (h methodParams) Exempt(exempts ...interface{}) MethodHandler {
-	h = append(h, Exempt(exempts...))
-	return h
+	return h.with(Exempt(exempts...))
+}
+
+// with adds to a copy, several handlers can be made of the same one
+func (h methodParams) with(handler Handler) MethodHandler {
+	return append(h[:len(h):len(h)], handler)
 }
 
 func Get(c Handler) MethodHandler {
-- 
2.43.0


From f6dbbf1f427a28a9d1acb3e9f1df5d2d42d9fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 79/82] fix: filters taken over by ReplaceFilters stay apart
 from those of the other application

---
 app_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app_util.go b/app_util.go
index 5ce2942..832afd3 100755
--- a/app_util.go
+++ b/app_util.go
@@ -12,7 +12,8 @@ import (
 )
 
 func ReplaceFilters(old, new *Strip) {
-	old.filters = new.filters
+	// a copy, both can get more filters
+	old.filters = append(filters(nil), new.filters...)
 }
 
 type StrTo string
-- 
2.43.0


From 95c0787170da3b0a6d47f85b96eb89623040683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 80/82] fix: gzip was sent to clients that refuse it with q=0,
 and not to those that offer it in capitals or a second header line

---
 gzip/gzip.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/gzip/gzip.go b/gzip/gzip.go
index 1393ac1..79d0b1f 100755
--- a/gzip/gzip.go
+++ b/gzip/gzip.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -23,7 +24,7 @@ const (
 // All returns a Handler that adds gzip compression to all requests
 func All() interface{} {
 	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {
-		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), "gzip") {
+		if !acceptsGzip(req.Header) {
 			return
 		}
 
@@ -39,6 +40,33 @@ func All() interface{} {
 	}
 }
 
+// acceptsGzip reports whether the client offers gzip, a weight of zero refuses it
+func acceptsGzip(header http.Header) bool {
+	for _, line := range header[HeaderAcceptEncoding] {
+		for _, coding := range strings.Split(line, ",") {
+			params := strings.Split(coding, ";")
+			switch strings.ToLower(strings.TrimSpace(params[0])) {
+			case "gzip", "x-gzip":
+			default:
+				continue
+			}
+
+			refused := false
+			for _, param := range params[1:] {
+				param = strings.ToLower(strings.Replace(param, " ", "", -1))
+				if strings.HasPrefix(param, "q=") {
+					weight, err := strconv.ParseFloat(param[2:], 64)
+					refused = err == nil && weight <= 0
+				}
+			}
+			if !refused {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 type gzipResponseWriter struct {
 	strip.ResponseWriter
 	gzw *gzip.Writer
-- 
2.43.0


From 5c926bc0fad4265b2604477834d0b776d82a4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 81/82] fix: a panic was answered as if nothing had happened
 when no logger could be found

---
 recovery.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recovery.go b/recovery.go
index 55dd7b7..b5b8b0d 100755
--- a/recovery.go
+++ b/recovery.go
@@ -70,11 +70,10 @@ func RecoveryFilter() inject.Provider {
 				fErr := ctx.Find(&log, "")
 				if fErr != nil {
 					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\n%s", err, fErr, stack)
-					return
+				} else {
+					log.Errorf("PANIC: %#v\n%s", err, stack)
 				}
 
-				log.Errorf("PANIC: %#v\n%s", err, stack)
-
 				var rw http.ResponseWriter
 				ctx.Find(&rw, "")
 
-- 
2.43.0


From 3260969acafb5d40f6669e18346b8f9ff64e491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:35 +0000
Subject: [PATCH 82/82] fix: of two verbs of which one ends with the other, the
 one declared last was used

---
 router.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index 6606579..00bf540 100755
--- a/router.go
+++ b/router.go
@@ -404,8 +404,15 @@ func (r *route) configRoutes(args routeArgs) {
 					}
 				}
 				if isNew {
-					if rt.pathParam.customVerb != "" {
-						targetRoute.paramRoutes = append([]*route{rt}, targetRoute.paramRoutes...)
+					if verb := rt.pathParam.customVerb; verb != "" {
+						// a longer verb is more specific than one it ends with
+						n := 0
+						for n < len(targetRoute.paramRoutes) && len(targetRoute.paramRoutes[n].pathParam.customVerb) > len(verb) {
+							n++
+						}
+						paramRoutes := append([]*route{}, targetRoute.paramRoutes[:n]...)
+						paramRoutes = append(paramRoutes, rt)
+						targetRoute.paramRoutes = append(paramRoutes, targetRoute.paramRoutes[n:]...)
 					} else {
 						targetRoute.paramRoutes = append(targetRoute.paramRoutes, rt)
 					}
-- 
2.43.0

