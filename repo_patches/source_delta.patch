From debe298e2a52ecb70193aeb0afbb95febcd437af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 01/48] fix: optionalized strips explicit undefined in every
 case and leaves its input unmodified

---
 packages/io-ts-http/src/combinators.ts | 80 +++++++++++---------------
 1 file changed, 34 insertions(+), 46 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..275c549 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -3,7 +3,6 @@ import * as E from 'fp-ts/Either';
 import * as R from 'fp-ts/Record';
 import * as t from 'io-ts';
 import {
-  DefinedValues,
   Flattened,
   NestedType,
   NestedOutputType,
@@ -14,47 +13,26 @@ import {
   Simplify,
 } from './utils';
 
-const partialWithoutUndefined = <P extends t.Props>(
-  props: P,
-  name?: string,
-): t.PartialType<
-  P,
-  DefinedValues<t.TypeOfPartialProps<P>>,
-  DefinedValues<t.OutputOfPartialProps<P>>,
-  unknown
-> => {
-  const partialCodec = t.partial(props, name);
-  return new t.PartialType(
-    partialCodec.name,
-    (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
-        partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
+// Drops the explicitly undefined optional properties of a decoded or encoded value. The value may be the very object
+// that was passed in by the caller, so it is copied rather than modified.
+const withoutUndefined = <A>(value: A, requiredProps: t.Props): A => {
+  if (typeof value !== 'object' || value === null) {
+    // `t.partial` will encode `undefined` as itself even though it is not in the type
+    return value;
+  }
+  let result: any = value;
+  for (const key of Object.keys(value)) {
+    if (
+      result[key] === void 0 &&
+      !Object.prototype.hasOwnProperty.call(requiredProps, key)
+    ) {
+      if (result === value) {
+        result = { ...value };
       }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
-    props,
-  );
+      delete result[key];
+    }
+  }
+  return result;
 };
 
 export const optional = <C extends t.Mixed>(codec: C): t.UnionC<[C, t.UndefinedC]> =>
@@ -75,15 +53,25 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const codec = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
-    partialWithoutUndefined(
-      optionalProps,
-      name ? `optional_${name}` : undefined,
-    ) as t.PartialC<OptionalProps<P>>,
+    t.partial(optionalProps, name ? `optional_${name}` : undefined) as t.PartialC<
+      OptionalProps<P>
+    >,
   ]);
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) =>
+      pipe(
+        codec.validate(i, ctx),
+        E.map((result) => withoutUndefined(result, requiredProps)),
+      ),
+    (a) => withoutUndefined(codec.encode(a), requiredProps),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From 39e0bdc9edfe51f55d0a1559b937f4db3e58c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 02/48] fix: flattened does not encode explicitly undefined
 properties

---
 packages/io-ts-http/src/combinators.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 275c549..bda2433 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -121,9 +121,12 @@ export const flattened = <Props extends NestedProps>(
         }
         nested[o] = {};
         for (const i in props[o]) {
-          if ((input as {}).hasOwnProperty(i)) {
+          if (Object.prototype.hasOwnProperty.call(input, i)) {
             const codec = props[o]![i]!;
-            nested[o]![i] = codec.encode(input[i]);
+            const encoded = codec.encode(input[i]);
+            if (encoded !== void 0) {
+              nested[o]![i] = encoded;
+            }
           }
         }
       }
-- 
2.43.0


From 4963ffa180f1620288be4188c60fce44fafe7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 03/48] fix: a failing after-response hook is not treated as an
 encode error

---
 packages/typed-express-router/src/index.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index cb7c0f6..227471f 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -133,6 +133,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             apiName,
             httpRoute: route,
           });
+          let sentStatusCode: number | undefined;
           try {
             const codec = route.response[status];
             if (!codec) {
@@ -152,12 +153,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             }
             const encoded = codec.encode(payload);
             res.status(statusCode).json(encoded).end();
-            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
-              statusCode,
-              payload,
-              req as WrappedRequest,
-              res as WrappedResponse,
-            );
+            sentStatusCode = statusCode;
           } catch (err) {
             const statusCode = (
               options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
@@ -171,6 +167,15 @@ export function wrapRouter<Spec extends ApiSpec>(
           } finally {
             endSpan(encodeSpan);
           }
+          if (sentStatusCode !== undefined) {
+            // Outside of the `try`, so that a failing hook isn't mistaken for an encode error after the response was sent
+            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
+              sentStatusCode,
+              payload,
+              req as WrappedRequest,
+              res as WrappedResponse,
+            );
+          }
         };
         next();
       };
-- 
2.43.0


From dab4419eb0761a8d12d6fd004c34e347e439b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 04/48] fix: encode handler responses of codecs declared under
 a status key

A route may declare its responses under keys such as 'ok', but the default encoder of
express-wrapper looked them up by status code only, and always answered 500.
---
 packages/express-wrapper/src/response.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/response.ts b/packages/express-wrapper/src/response.ts
index 389d858..10b18fd 100644
--- a/packages/express-wrapper/src/response.ts
+++ b/packages/express-wrapper/src/response.ts
@@ -29,7 +29,8 @@ export const defaultResponseEncoder: ResponseEncoder =
       res.status(500).end();
       return;
     }
-    const responseCodec = route.response[status];
+    // A response may be declared under its status code or its key
+    const responseCodec = route.response[status] ?? route.response[type];
     try {
       res.status(status).json(responseCodec!.encode(payload)).end();
     } catch (err) {
-- 
2.43.0


From 11a8d123bf23503130c150a82f84620c9b52acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 05/48] fix: errors passed to next() stop the middleware of
 routes without routeHandler

They were ignored, so the handler ran although a middleware had refused the request.
---
 packages/express-wrapper/src/middleware.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..720c135 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -209,8 +209,16 @@ export async function runMiddlewareChainIgnoringResults<
 ): Promise<Input> {
   for (const middleware of chain) {
     await new Promise((resolve, reject) => {
+      const next = (error?: unknown) => {
+        if (error !== undefined) {
+          reject(error);
+        } else {
+          resolve(undefined);
+        }
+      };
+
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, next);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From 2d29529c84966ce9f2f78f57866629712febfdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 06/48] fix: a route handler or middleware that fails is not
 answered as a success

An express response starts out with status 200, so the check for a missing status never
held and an empty 200 was sent.
---
 packages/express-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..4119320 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,7 +144,8 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        // An express response starts out as a 200, so only an error status was set on purpose
+        if (!res.headersSent && !(res.statusCode >= 400)) {
           res.status(500);
         }
         res.end();
-- 
2.43.0


From 56f1d0a9575cbf03d4a8ef75b0d51c436acb5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 07/48] fix: encode path parameters in request URLs

A value with a slash, question mark, percent sign or the like changed the request's path or
arrived as a different value, one with '$&' or '{name}' was expanded, and a parameter that
occurs twice was substituted once.
---
 packages/superagent-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..d71f4b4 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -67,7 +67,8 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
 export const substitutePathParams = (path: string, params: Record<string, string>) => {
   for (const key in params) {
     if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
+      // Encoded, so that the value arrives as it is, whatever characters it consists of
+      path = path.split(`{${key}}`).join(encodeURIComponent(params[key]!));
     }
   }
   return path;
-- 
2.43.0


From f4f6329fcf73047a18d6ee3fb1ae0119ec616308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 08/48] fix: send request bodies that are falsy

Request codecs may have bodies such as 0, false or null, which were dropped.
---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index d71f4b4..1f954b5 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -208,7 +208,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From fc3f6bf5fb791e4a27376ee86b5972b1c80d5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 09/48] fix: decode response bodies that are falsy

A JSON body of 0, false, null or the empty string was replaced by the response's text.
---
 packages/superagent-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 1f954b5..eba7a41 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -129,7 +129,8 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      // A parsed body may well be falsy. It is missing if there was nothing to parse, or null in browsers.
+      const bodyOrText = body === null && text === 'null' ? null : (body ?? text);
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
-- 
2.43.0


From 5f16c9bd2087b00361743d6c9b09c00816bd92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 10/48] fix: do not widen a union of equal boolean literals to
 boolean

---
 packages/openapi-generator/src/optimize.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..034d75e 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -66,7 +66,14 @@ function consolidateUnion(schema: Schema): Schema {
     (s) => s.type === 'boolean' || s.decodedType === 'boolean',
   );
 
-  if (booleanSchemas.length === innerSchemas.length && booleanSchemas.length > 0) {
+  // A union of the same boolean literal repeated is still only that literal
+  const booleanValues = new Set(
+    booleanSchemas.flatMap((s) =>
+      s.type === 'boolean' && s.enum !== undefined ? s.enum : [true, false],
+    ),
+  );
+
+  if (booleanSchemas.length === innerSchemas.length && booleanValues.size > 1) {
     return { type: 'boolean' };
   }
 
-- 
2.43.0


From bd68c227603ca3e267b3d122555753dafd0a870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 11/48] fix: keep every constraint on a property that several
 members of an intersection describe

---
 packages/openapi-generator/src/optimize.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 034d75e..b0bad7c 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -3,6 +3,12 @@ import { isPrimitive, type CombinedType, type Primitive, type Schema } from './i
 
 export type OptimizeFn = (schema: Schema) => Schema;
 
+function isSameSchema(a: Schema, b: Schema): boolean {
+  const { comment: _a, ...restA } = a;
+  const { comment: _b, ...restB } = b;
+  return JSON.stringify(restA) === JSON.stringify(restB);
+}
+
 export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.type !== 'intersection') {
     return schema;
@@ -17,8 +23,19 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
-      Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      for (const [name, prop] of Object.entries(innerSchema.properties)) {
+        const existing = Object.entries(combinedObject.properties).find(
+          ([key]) => key === name,
+        );
+        // A property described by more than one member has to satisfy all of them
+        combinedObject.properties[name] =
+          existing === undefined || isSameSchema(existing[1], prop)
+            ? prop
+            : optimize({ type: 'intersection', schemas: [existing[1], prop] });
+      }
+      combinedObject.required.push(
+        ...innerSchema.required.filter((key) => !combinedObject.required.includes(key)),
+      );
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From 70ca8a0bca21dba384b49c77255acfe775cd242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 12/48] fix: simplify the only member of a union like any other
 schema

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index b0bad7c..edd6e0f 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -73,7 +73,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
 
 function consolidateUnion(schema: Schema): Schema {
   if (schema.type !== 'union') return schema;
-  if (schema.schemas.length === 1) return schema.schemas[0]!;
+  if (schema.schemas.length === 1) return optimize(schema.schemas[0]!);
   if (schema.schemas.length === 0) return { type: 'undefined' };
 
   const consolidatableTypes = ['boolean', 'number', 'string'];
-- 
2.43.0


From 4c4acb4081f20f2d9f65deef2c007904df9eefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 13/48] fix: do not write a union's comment into its members

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index edd6e0f..ff63127 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -239,7 +239,7 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
 // This function is a helper that adds back any comments that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
   if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
+    return { ...newSchema, comment: combineComments(oldSchema) };
   }
 
   return newSchema;
-- 
2.43.0


From 50cff2940cea4f76e7a3efd29ca0de10077d6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 14/48] fix: properties are optional when a nested union allows
 undefined

---
 packages/openapi-generator/src/optimize.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index ff63127..f8046a7 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -221,12 +221,15 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
     return [false, schema];
   }
 
-  const undefinedIndex = schema.schemas.findIndex((s) => s.type === 'undefined');
-  if (undefinedIndex < 0) {
+  // Unions can be nested, in which case the undefined might be further down
+  const innerSchemas = schema.schemas.map((s) => filterUndefinedUnion(s));
+  if (
+    !innerSchemas.some(([isOptional, s]) => isOptional || s.type === 'undefined')
+  ) {
     return [false, schema];
   }
 
-  const schemas = schema.schemas.filter((s) => s.type !== 'undefined');
+  const schemas = innerSchemas.map(([, s]) => s).filter((s) => s.type !== 'undefined');
   if (schemas.length === 0) {
     return [true, { type: 'undefined' }];
   } else if (schemas.length === 1) {
-- 
2.43.0


From 5598ce710ae323b6e579ae86499bf790c34d0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 15/48] fix: describe every alternative of a union that also
 allows undefined

---
 packages/openapi-generator/src/openapi.ts | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..bc9978c 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -2,7 +2,7 @@ import { OpenAPIV3 } from 'openapi-types';
 
 import { STATUS_CODES } from 'http';
 import { parseCommentBlock } from './jsdoc';
-import { optimize } from './optimize';
+import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
 import type { Schema } from './ir';
 import { Block } from 'comment-parser';
@@ -142,24 +142,27 @@ export function schemaToOpenAPI(
         let nullable = false;
         let oneOf: (OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject)[] = [];
 
-        // If there are two schemas and one of the schemas is undefined, that means the union is a case of `optional` type
-        const undefinedSchema = schema.schemas.find((s) => s.type === 'undefined');
-        const nonUndefinedSchema = schema.schemas.find((s) => s.type !== 'undefined');
+        // If one of the schemas is undefined, that means the union is a case of `optional` type
+        const [isOptional, definedSchema] = filterUndefinedUnion(schema);
         // If nullSchema exists, that means that the union is also nullable
         const nullSchema = schema.schemas.find((s) => s.type === 'null');
 
         // If any schema exists and it is in union with another schema - we can remove the any schema as an optimization
         const unknownSchema = schema.schemas.find((s) => s.type === 'any');
 
-        // and we can just return the other schema (while attaching the comment to that schema)
-        const isOptional =
-          schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
-        if (isOptional) {
+        // and we can just return the other schemas (while attaching the comment to them)
+        if (isOptional && definedSchema.type !== 'undefined') {
+          const nonNullSchemas =
+            definedSchema.type === 'union'
+              ? definedSchema.schemas.filter((s) => s.type !== 'null')
+              : [definedSchema];
+          const [onlySchema] = nonNullSchemas;
           return schemaToOpenAPI(
             {
-              ...nonUndefinedSchema,
+              ...(nonNullSchemas.length === 1 && onlySchema !== undefined
+                ? onlySchema
+                : definedSchema),
               comment: schema.comment,
-              ...(nullSchema ? { nullable: true } : {}),
             },
             componentNameMapping,
           );
-- 
2.43.0


From 6be19bddcd56d245aa5ff7b4ceb07844b236c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 16/48] fix: keys of a record with optional values are not
 required

---
 packages/openapi-generator/src/openapi.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index bc9978c..2ddde08 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -249,11 +249,14 @@ export function schemaToOpenAPI(
               return { ...acc, [key]: additionalProperties };
             }, {});
 
+            // When the values can be undefined, so can the keys be missing
+            const [isOptional] = filterUndefinedUnion(schema.codomain);
+
             return {
               type: 'object',
               properties,
               ...defaultOpenAPIObject,
-              required: keys.enum,
+              ...(isOptional ? {} : { required: keys.enum }),
             };
           }
         }
-- 
2.43.0


From b44542b8fcf260ed88f47c072bb3630a48525772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 17/48] fix: minimum and maximum of a codec were swapped in the
 document

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 2ddde08..6c3efc3 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -306,8 +306,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
-- 
2.43.0


From 94cf6b357f34ba9846525058c6040f9c265558d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 18/48] fix: keep constraints, defaults and examples that are
 zero or false

---
 packages/openapi-generator/src/openapi.ts | 39 +++++++++++++----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 6c3efc3..8278a7c 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -84,7 +84,7 @@ export function schemaToOpenAPI(
 
         const siblings = {
           ...rest,
-          ...(!isArrayExample && example ? { example } : {}),
+          ...(!isArrayExample && example !== undefined ? { example } : {}),
         };
 
         // Handle case where innerSchema is a $ref with siblings
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -282,8 +282,10 @@ export function schemaToOpenAPI(
    * @param fieldValue The value to parse
    * @returns the parsed value
    */
-  const parseField = (schema: Schema, fieldValue: string): any => {
-    if (schema.type === 'number' || schema.type === 'integer') {
+  const parseField = (schema: Schema, fieldValue: unknown): any => {
+    if (typeof fieldValue !== 'string') {
+      return fieldValue;
+    } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
       return fieldValue === 'true';
@@ -291,12 +293,15 @@ export function schemaToOpenAPI(
       return null;
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
   };
 
+  // Zero and false are values like any other, unlike a tag that nothing was written after
+  const isGiven = (value: unknown): boolean => value !== undefined && value !== '';
+
   function buildDefaultOpenAPIObject(schema: Schema): OpenAPIV3.SchemaObject {
     const emptyBlock: Block = { description: '', tags: [], source: [], problems: [] };
     const jsdoc = parseCommentBlock(schema.comment ?? emptyBlock);
@@ -332,22 +337,22 @@ export function schemaToOpenAPI(
     const description = schema.comment?.description ?? schema.description;
 
     const defaultOpenAPIObject = {
-      ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
+      ...(isGiven(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
-      ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isGiven(example) ? { example: parseField(schema, example) } : {}),
+      ...(isGiven(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isGiven(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isGiven(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isGiven(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isGiven(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isGiven(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isGiven(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isGiven(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
       ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
       ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
-      ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
+      ...(isGiven(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
       ...(uniqueItems ? { uniqueItems: true } : {}),
       ...(readOnly ? { readOnly: true } : {}),
       ...(writeOnly ? { writeOnly: true } : {}),
-- 
2.43.0


From eb64553ffba515d97215a63c27d1165bc329fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 19/48] fix: flag tags without a value set the flag

---
 packages/openapi-generator/src/openapi.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 8278a7c..336554c 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -305,6 +305,9 @@ export function schemaToOpenAPI(
   function buildDefaultOpenAPIObject(schema: Schema): OpenAPIV3.SchemaObject {
     const emptyBlock: Block = { description: '', tags: [], source: [], problems: [] };
     const jsdoc = parseCommentBlock(schema.comment ?? emptyBlock);
+    // A tag without a value sets the flag too
+    const isSet = (tag: string, fallback: boolean | undefined): boolean =>
+      jsdoc.tags?.[tag] !== undefined ? true : fallback === true;
 
     const defaultValue = jsdoc?.tags?.default ?? schema.default;
     const example = jsdoc?.tags?.example ?? schema.example;
@@ -317,12 +320,12 @@ export function schemaToOpenAPI(
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
     const maxProperties = jsdoc?.tags?.maxProperties ?? schema.maxProperties;
-    const exclusiveMinimum = jsdoc?.tags?.exclusiveMinimum ?? schema.exclusiveMinimum;
-    const exclusiveMaximum = jsdoc?.tags?.exclusiveMaximum ?? schema.exclusiveMaximum;
+    const exclusiveMinimum = isSet('exclusiveMinimum', schema.exclusiveMinimum);
+    const exclusiveMaximum = isSet('exclusiveMaximum', schema.exclusiveMaximum);
     const multipleOf = jsdoc?.tags?.multipleOf ?? schema.multipleOf;
-    const uniqueItems = jsdoc?.tags?.uniqueItems ?? schema.uniqueItems;
-    const readOnly = jsdoc?.tags?.readOnly ?? schema.readOnly;
-    const writeOnly = jsdoc?.tags?.writeOnly ?? schema.writeOnly;
+    const uniqueItems = isSet('uniqueItems', schema.uniqueItems);
+    const readOnly = isSet('readOnly', schema.readOnly);
+    const writeOnly = isSet('writeOnly', schema.writeOnly);
     const format = jsdoc?.tags?.format ?? schema.format ?? schema.format;
     const title = jsdoc?.tags?.title ?? schema.title;
 
-- 
2.43.0


From 369da01ded1af2858e90a872c23b4e33b605c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 20/48] fix: keep the constraints a codec puts on an array

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index f8046a7..4f262f3 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -281,7 +281,7 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-- 
2.43.0


From a200b9096b7f42dff88a7220970b3e8ad7574b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 21/48] fix: keep the constraints a codec puts on an object or
 record

---
 packages/openapi-generator/src/optimize.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 4f262f3..953ff53 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -265,7 +265,7 @@ export function optimize(schema: Schema): Schema {
       }
     }
 
-    const schemaObject: Schema = { type: 'object', properties, required };
+    const schemaObject: Schema = { ...schema, properties, required };
 
     return withComment(schemaObject, schema);
   } else if (schema.type === 'intersection') {
@@ -285,7 +285,7 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'record') {
     return withComment(
       {
-        type: 'record',
+        ...schema,
         ...(schema.domain ? { domain: optimize(schema.domain) } : {}),
         codomain: optimize(schema.codomain),
       },
-- 
2.43.0


From 9b6854b07d2a3fd380523423df6bd11f01dd7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 22/48] fix: star exports do not include the default export

---
 packages/openapi-generator/src/resolveInit.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..4f74c30 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -41,6 +41,10 @@ function findExportedDeclaration(
       return findSymbolInitializer(project, sourceFile, exp.localName);
     }
   }
+  if (name === 'default') {
+    // Star exports do not include the default export
+    return errorLeft(`Unknown identifier ${name}`);
+  }
   for (const starExport of sourceFile.symbols.exportStarFiles) {
     const starSourceFile = resolveImportPath(project, sourceFile, starExport);
     if (E.isLeft(starSourceFile)) {
-- 
2.43.0


From 313eef3e30f27a1d8a2983f56e855f34440657cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 23/48] fix: resolve names in modules that star export each
 other

---
 packages/openapi-generator/src/resolveInit.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 4f74c30..e3fc37b 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -35,6 +35,7 @@ function findExportedDeclaration(
   project: Project,
   sourceFile: SourceFile,
   name: string,
+  starExporters: readonly SourceFile[] = [],
 ): E.Either<string, ResolvedInitializer> {
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
@@ -50,7 +51,17 @@ function findExportedDeclaration(
     if (E.isLeft(starSourceFile)) {
       return errorLeft(`Cannot resolve * export from '${starExport}'`);
     }
-    const starExportE = findExportedDeclaration(project, starSourceFile.right, name);
+    if (
+      starSourceFile.right === sourceFile ||
+      starExporters.includes(starSourceFile.right)
+    ) {
+      // Modules may star export each other
+      continue;
+    }
+    const starExportE = findExportedDeclaration(project, starSourceFile.right, name, [
+      ...starExporters,
+      sourceFile,
+    ]);
     if (E.isRight(starExportE)) {
       return starExportE;
     }
-- 
2.43.0


From 7f34956e24e508a99c604449e448fe2336026ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 24/48] fix: a re-export does not make the name available in
 the module itself

---
 packages/openapi-generator/src/symbol.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..0875899 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -80,21 +80,26 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
 
   decl.specifiers.forEach((specifier) => {
     switch (specifier.type) {
-      case 'ExportSpecifier':
+      case 'ExportSpecifier': {
+        // A re-export does not make the name available in the module itself, so the local name must not be an identifier
+        const localName = decl.source
+          ? `${specifier.orig.value} from '${decl.source.value}'`
+          : specifier.orig.value;
         result.exports.push({
           type: 'named',
           exportedName: specifier.exported?.value ?? specifier.orig.value,
-          localName: specifier.orig.value,
+          localName,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: specifier.orig.value,
+            localName,
             from: decl.source.value,
           });
         }
         break;
+      }
       case 'ExportDefaultSpecifier':
         result.exports.push({
           type: 'named',
-- 
2.43.0


From 0fe883c88d57e20ac013521022010201a70431e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 25/48] fix: follow references to renamed, default and shadowed
 exports

---
 packages/openapi-generator/src/cli.ts         |   4 +-
 packages/openapi-generator/src/codec.ts       | 149 ++++++++----------
 packages/openapi-generator/src/resolveInit.ts |  47 ++++++
 packages/openapi-generator/src/route.ts       |   4 +-
 4 files changed, 115 insertions(+), 89 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..5ba4340 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,7 @@ import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferenceInitializer } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -199,7 +199,7 @@ const app = command({
           process.exit(1);
         }
 
-        const initE = findSymbolInitializer(project, sourceFile, ref.name);
+        const initE = findReferenceInitializer(project, sourceFile, ref);
         if (E.isLeft(initE)) {
           logError(
             `Could not find symbol '${ref.name}' in '${ref.location}': ${initE.left}`,
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..a602325 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -3,10 +3,10 @@ import * as E from 'fp-ts/Either';
 import { pipe } from 'fp-ts/lib/function';
 
 import { leadingComment } from './comments';
-import type { Object, Schema } from './ir';
+import type { Object, Reference, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferenceInitializer, findSymbolInitializer } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -14,6 +14,47 @@ import { errorLeft } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
+/**
+ * Refers to an imported declaration, by the name it is imported by if its file knows it by that name too
+ */
+function importedRef(
+  project: Project,
+  source: SourceFile,
+  importedName: string,
+  [declaringSource, init]: [SourceFile, swc.Expression, ...unknown[]],
+): Reference {
+  const ref: Reference = {
+    type: 'ref',
+    name: importedName,
+    location: declaringSource.path,
+  };
+  const initE = findReferenceInitializer(project, source, ref);
+  if (E.isRight(initE) && initE.right[1] === init) {
+    return ref;
+  }
+  const declaration = declaringSource.symbols.declarations.find((s) => s.init === init);
+  return declaration !== undefined ? { ...ref, name: declaration.name } : ref;
+}
+
+/**
+ * Parses what a schema refers to, if it is a reference
+ */
+function parseReferenced(
+  project: Project,
+  source: SourceFile,
+  schema: Schema,
+): E.Either<string, Schema> {
+  if (schema.type !== 'ref') {
+    return E.right(schema);
+  }
+  const realInitE = findReferenceInitializer(project, source, schema);
+  if (E.isLeft(realInitE)) {
+    return realInitE;
+  }
+  const [realSource, realInit] = realInitE.right;
+  return parsePlainInitializer(project, realSource, realInit);
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -44,13 +85,8 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
 
-    return E.right({
-      type: 'ref',
-      name: imp.importedName,
-      location: newSourceFile.path,
-    });
+    return E.right(importedRef(project, source, imp.importedName, initE.right));
   } else if (id.type === 'MemberExpression') {
     const object = id.object;
     if (object.type !== 'Identifier') {
@@ -115,7 +151,7 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      return E.right(importedRef(project, source, name, newInitE.right));
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
@@ -217,26 +253,15 @@ function parseObjectExpression(
       result.required.push(name);
       continue;
     } else if (property.type === 'SpreadElement') {
-      const schemaE = parsePlainInitializer(project, source, property.arguments);
+      const argumentE = parsePlainInitializer(project, source, property.arguments);
+      if (E.isLeft(argumentE)) {
+        return argumentE;
+      }
+      const schemaE = parseReferenced(project, source, argumentE.right);
       if (E.isLeft(schemaE)) {
         return schemaE;
       }
-      let schema = schemaE.right;
-      if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        schema = schemaE.right;
-      }
+      const schema = schemaE.right;
       if (schema.type !== 'object') {
         return errorLeft(`Spread element must be object`);
       }
@@ -264,26 +289,15 @@ function parseObjectExpression(
 
     let name: string = '';
     if (property.key.type === 'Computed') {
-      const valueE = parseCodecInitializer(project, source, property.key.expression);
-      if (E.isLeft(valueE)) {
-        return valueE;
+      const keyE = parseCodecInitializer(project, source, property.key.expression);
+      if (E.isLeft(keyE)) {
+        return keyE;
       }
-      let schema = valueE.right;
-      if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        schema = schemaE.right;
+      const schemaE = parseReferenced(project, source, keyE.right);
+      if (E.isLeft(schemaE)) {
+        return schemaE;
       }
+      const schema = schemaE.right;
       if (
         (schema.type === 'string' || schema.type === 'number') &&
         schema.enum !== undefined
@@ -325,22 +339,11 @@ function parseArrayExpression(
     }
     // swc sometimes sets this to `null` even though it is supposed to be `undefined`
     if (element.spread) {
-      let init = valueE.right;
-      if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
-        if (E.isLeft(schemaE)) {
-          return schemaE;
-        }
-        init = schemaE.right;
+      const initE = parseReferenced(project, source, valueE.right);
+      if (E.isLeft(initE)) {
+        return initE;
       }
+      const init = initE.right;
       if (init.type !== 'tuple') {
         return errorLeft('Spread element must be array literal');
       }
@@ -370,15 +373,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
-      if (E.isLeft(realInitE)) {
-        return realInitE;
-      }
-      const schemaE = parsePlainInitializer(
-        project,
-        realInitE.right[0],
-        realInitE.right[1],
-      );
+      const schemaE = parseReferenced(project, source, schema);
       if (E.isLeft(schemaE)) {
         return schemaE;
       }
@@ -532,23 +527,7 @@ export function parseCodecInitializer(
       if (schema.type !== 'ref') {
         return E.right(schema);
       } else {
-        let refSource = project.get(schema.location);
-
-        if (refSource === undefined) {
-          // schema.location might be a package name -> need to resolve the path from the project types
-          const path = project.getTypes()[schema.name];
-          if (path === undefined)
-            return errorLeft(
-              `Cannot find external codec '${schema.name}' from module '${schema.location}'. ` +
-                `To fix this, add the codec definition to your codec config file. ` +
-                `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
-            );
-          refSource = project.get(path);
-          if (refSource === undefined) {
-            return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
-          }
-        }
-        const initE = findSymbolInitializer(project, refSource, schema.name);
+        const initE = findReferenceInitializer(project, source, schema);
         if (E.isLeft(initE)) {
           return initE;
         }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index e3fc37b..e8e6825 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -3,6 +3,7 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 import { dirname } from 'node:path';
 
+import type { Reference } from './ir';
 import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
@@ -107,6 +108,52 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+/**
+ * Find the initializer of the declaration that a reference refers to
+ * @param project the project
+ * @param sourceFile the file that contains the reference
+ * @param ref the reference
+ */
+export function findReferenceInitializer(
+  project: Project,
+  sourceFile: SourceFile,
+  ref: Reference,
+): E.Either<string, ResolvedInitializer> {
+  let refSource = project.get(ref.location);
+
+  if (refSource === undefined) {
+    // ref.location might be a package name
+    const packageSourceE = resolveImportPath(project, sourceFile, ref.location);
+    if (E.isRight(packageSourceE)) {
+      const initE = findExportedDeclaration(project, packageSourceE.right, ref.name);
+      if (E.isRight(initE)) {
+        return initE;
+      }
+    }
+
+    // Otherwise resolve the path from the project types
+    const path = project.getTypes()[ref.name];
+    if (path === undefined)
+      return errorLeft(
+        `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
+          `To fix this, add the codec definition to your codec config file. ` +
+          `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
+      );
+    refSource = project.get(path);
+    if (refSource === undefined) {
+      return errorLeft(`Cannot find '${ref.name}' from '${ref.location}'`);
+    }
+  }
+
+  // The name is either declared in the file, or the file exports the declaration under that name
+  const initE = findSymbolInitializer(project, refSource, ref.name);
+  if (E.isRight(initE)) {
+    return initE;
+  }
+  const exportedE = findExportedDeclaration(project, refSource, ref.name);
+  return E.isRight(exportedE) ? exportedE : initE;
+}
+
 export function resolveLiteralOrIdentifier(
   project: Project,
   sourceFile: SourceFile,
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..3dc1aaf 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -4,7 +4,7 @@ import * as E from 'fp-ts/Either';
 import { parseCodecInitializer } from './codec';
 import type { CombinedType, Schema } from './ir';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferenceInitializer } from './resolveInit';
 import { errorLeft } from './error';
 
 export type Parameter = {
@@ -38,7 +38,7 @@ function derefRequestSchema(
     if (sourceFile === undefined) {
       return errorLeft(`Could not find '${schema.name}' from '${schema.location}'`);
     }
-    const initE = findSymbolInitializer(project, sourceFile, schema.name);
+    const initE = findReferenceInitializer(project, sourceFile, schema);
     if (E.isLeft(initE)) {
       return initE;
     }
-- 
2.43.0


From 438d501f9af11fed6a71af6a40e131fc279d648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 26/48] fix: spread constants that are aliases of other
 constants

---
 packages/openapi-generator/src/codec.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index a602325..06ef55b 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -52,7 +52,11 @@ function parseReferenced(
     return realInitE;
   }
   const [realSource, realInit] = realInitE.right;
-  return parsePlainInitializer(project, realSource, realInit);
+  const realSchemaE = parsePlainInitializer(project, realSource, realInit);
+  // The declaration might be an alias for another one
+  return E.isRight(realSchemaE)
+    ? parseReferenced(project, realSource, realSchemaE.right)
+    : realSchemaE;
 }
 
 function codecIdentifier(
-- 
2.43.0


From c473bb80c676b51081c111fa179abe6062f013eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 27/48] fix: find documentation comments at their exact offsets

The offsets were one too large, counted characters outside the BMP once and
ignored byte order marks; cut off comments were then guessed, which also made
documentation of ordinary comments.
---
 packages/openapi-generator/src/comments.ts   | 47 ++++----------------
 packages/openapi-generator/src/sourceFile.ts | 17 +++----
 2 files changed, 15 insertions(+), 49 deletions(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index bd8f135..e9733da 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -19,7 +19,7 @@ function byteOffsetToCharOffset(str: string, byteOffset: number): number {
     const charBytes = Buffer.byteLength(char, 'utf8');
     if (byteCount + charBytes > byteOffset) break;
     byteCount += charBytes;
-    charCount++;
+    charCount += char.length;
   }
 
   return charCount;
@@ -40,44 +40,13 @@ export function leadingComment(
   const startCharOffset = byteOffsetToCharOffset(src, startByteOffset);
   const endCharOffset = byteOffsetToCharOffset(src, endByteOffset);
 
-  let commentString = src.slice(startCharOffset, endCharOffset).trim();
-
-  if (commentString.includes(' * ') && !/\/\*\*([\s\S]*?)\*\//.test(commentString)) {
-    // The comment block seems to be JSDoc but was sliced incorrectly
-
-    const beginningSubstring = '/**\n';
-    const endingSubstring = '\n */';
-
-    if (commentString.includes(beginningSubstring)) {
-      // Use lastIndexOf to get the LAST occurrence of '/**\n' to handle cases where
-      // the slice includes parts of previous properties
-      const lastIdx = commentString.lastIndexOf(beginningSubstring);
-      commentString = commentString.substring(lastIdx);
-    } else {
-      switch (commentString.split('\n')[0]) {
-        case '**':
-          commentString = '/' + commentString;
-          break;
-        case '*':
-          commentString = '/*' + commentString;
-          break;
-        case '':
-          commentString = '/**' + commentString;
-          break;
-        default:
-          commentString = beginningSubstring + commentString;
-          break;
-      }
-    }
-
-    if (commentString.includes(endingSubstring)) {
-      // Use indexOf to get the FIRST occurrence of '\n */' after isolating the last comment block
-      const firstIdx = commentString.indexOf(endingSubstring);
-      commentString = commentString.substring(0, firstIdx + endingSubstring.length);
-    } else {
-      commentString = commentString + endingSubstring;
-    }
-  }
+  // Only documentation comments count; what they look like inside of other comments does not
+  const comments = src
+    .slice(startCharOffset, endCharOffset)
+    .match(/\/\/.*|\/\*[\s\S]*?\*\//g);
+  const commentString = (comments ?? [])
+    .filter((comment) => comment.startsWith('/**') && comment !== '/**/')
+    .join('\n');
 
   const parsedComment = parseComment(commentString, { spacing: 'preserve' });
 
diff --git a/packages/openapi-generator/src/sourceFile.ts b/packages/openapi-generator/src/sourceFile.ts
index fa639a4..46a7897 100644
--- a/packages/openapi-generator/src/sourceFile.ts
+++ b/packages/openapi-generator/src/sourceFile.ts
@@ -10,16 +10,14 @@ export type SourceFile = {
   span: swc.Span;
 };
 
-// `module.span.start` is the offset of the first non-comment statement in a source file, so in order to get a better
-// offset for the first symbol, we need to keep track of end of the previously parsed file. `swc` appears to use a global
-// increasing counter for this, so we also need to track it globally here
-let lastSpanEnd = -1;
-
 export async function parseSource(
   path: string,
   src: string,
 ): Promise<SourceFile | undefined> {
   try {
+    // `swc` leaves a byte order mark out of its offsets
+    src = src.replace(/^\uFEFF/, '');
+
     // Parse an empty string to get the last span
     const lastSpan = swc.parseSync('');
 
@@ -30,12 +28,11 @@ export async function parseSource(
       decorators: true,
     });
 
-    // Set the start of the module to the end of the last span, so that we don't have any
-    // issues when parsing files that start with comments
-    module.span.start = lastSpan.span.start;
-    lastSpanEnd = lastSpan.span.end;
+    // `module.span.start` is the offset of the first non-comment statement in a source file. `swc` appears to use a global
+    // increasing counter for offsets, with a gap of one between files, so the file itself starts right after the last span
+    module.span.start = lastSpan.span.end + 1;
 
-    const symbols = parseTopLevelSymbols(src, lastSpanEnd, module.body);
+    const symbols = parseTopLevelSymbols(src, module.span.start, module.body);
     return {
       path,
       src,
-- 
2.43.0


From f93ca69dfaa269acd7349548f973603bc3e2f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 28/48] fix: the nearest comment documents a declaration, the
 first of a file included

---
 packages/openapi-generator/src/symbol.ts | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 0875899..667b596 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -116,7 +116,7 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
 function parseDeclaration(
   src: string,
   srcSpanStart: number,
-  prev: swc.ModuleItem | undefined,
+  prevEnd: number,
   decl: swc.Declaration | swc.ExportDeclaration,
 ): SymbolTable {
   const result: SymbolTable = {
@@ -130,10 +130,8 @@ function parseDeclaration(
     decl.type === 'ExportDeclaration' ? decl.declaration : decl;
 
   if (subDeclaration.type === 'VariableDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comments = leadingComment(src, srcSpanStart, prevEnd, decl.span.start);
+    const comment = comments[comments.length - 1];
     subDeclaration.declarations.forEach((d) => {
       if (
         d.type === 'VariableDeclarator' &&
@@ -156,10 +154,8 @@ function parseDeclaration(
       }
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comments = leadingComment(src, srcSpanStart, prevEnd, decl.span.start);
+    const comment = comments[comments.length - 1];
     // Construct a synthetic object declaration
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
       return {
@@ -226,7 +222,8 @@ export function parseTopLevelSymbols(
       item.type === 'ExportDeclaration' ||
       item.type === 'TsEnumDeclaration'
     ) {
-      const newSyms = parseDeclaration(src, srcSpanStart, items[idx - 1], item);
+      const prevEnd = items[idx - 1]?.span.end ?? srcSpanStart;
+      const newSyms = parseDeclaration(src, srcSpanStart, prevEnd, item);
       addTable(newSyms);
     } else if (item.type === 'ExportNamedDeclaration') {
       const newSyms = parseExportNamedDeclaration(item);
-- 
2.43.0


From a1831a4f5f4cbdcc99ea2f6c2ddd11f96298bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 29/48] fix: a comment before a shorthand or spread property is
 not the next property's

---
 packages/openapi-generator/src/codec.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 06ef55b..a976254 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -253,10 +253,21 @@ function parseObjectExpression(
       if (E.isLeft(valueE)) {
         return valueE;
       }
-      result.properties[name] = valueE.right;
+      const comments = leadingComment(
+        source.src,
+        source.span.start,
+        commentStartIdx,
+        property.span.start,
+      );
+      commentStartIdx = property.span.end;
+      result.properties[name] =
+        comments.length > 0
+          ? { ...valueE.right, comment: comments[comments.length - 1] }
+          : valueE.right;
       result.required.push(name);
       continue;
     } else if (property.type === 'SpreadElement') {
+      commentStartIdx = (property.arguments as swc.HasSpan).span.end;
       const argumentE = parsePlainInitializer(project, source, property.arguments);
       if (E.isLeft(argumentE)) {
         return argumentE;
-- 
2.43.0


From f573c5ac668e72ce0c9580522b1872d4832c907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 30/48] fix: keep the text of documentation tags as written

Tag values lost braces and repeated blanks, a one-line @example kept the end
of its comment, and lines of an example were cut at asterisks.
---
 packages/openapi-generator/src/jsdoc.ts | 35 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index 6bf698f..fcca261 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -15,40 +15,43 @@ export function parseCommentBlock(comment: Block): JSDoc {
   let writingExample = false;
 
   for (const line of comment.source) {
+    const { tag, postTag, type, postType, name, postName } = line.tokens;
+    // The text of the line behind its tag, if any
+    const text =
+      `${type}${postType}${name}${postName}${line.tokens.description}`.trim();
+
     if (writingExample) {
-      tags['example'] = `${tags['example']}\n${line.source.split('*')[1]?.trim()}`;
+      tags['example'] = `${tags['example']}\n${tag}${postTag}${text}`;
       try {
         tags['example'] = JSON.parse(tags['example']);
         writingExample = false;
       } catch (e) {
-        if (line.source.endsWith('*/'))
-          throw new Error('@example contains invalid JSON');
-        else continue;
+        continue;
       }
-    } else if (line.tokens.tag !== undefined && line.tokens.tag.length > 0) {
-      if (line.tokens.tag === '@example') {
-        tags['example'] = line.source.split('@example')[1]?.trim();
-        if (tags['example'].startsWith('{') || tags['example'].startsWith('[')) {
+    } else if (tag !== undefined && tag.length > 0) {
+      if (tag === '@example') {
+        tags['example'] = text;
+        if (text.startsWith('{') || text.startsWith('[')) {
           try {
-            tags['example'] = JSON.parse(tags['example']);
+            tags['example'] = JSON.parse(text);
           } catch (e) {
             writingExample = true;
           }
         }
       } else {
-        tags[line.tokens.tag.slice(1)] =
-          `${line.tokens.name} ${line.tokens.description}`.trim();
+        tags[tag.slice(1)] = text;
       }
     } else if (summary.length === 0) {
-      if (line.tokens.description === '') {
-        continue;
-      }
-      summary = line.tokens.description;
+      summary = text;
     } else {
-      description = `${description ?? ''}\n${line.tokens.description}`;
+      description = `${description}\n${text}`;
     }
   }
 
+  if (writingExample) {
+    throw new Error('@example contains invalid JSON');
+  }
+
   description = description.trim();
 
   return {
-- 
2.43.0


From 5c254a696658407d24e6006b73f65bb22fb1c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 31/48] fix: read the headers and path parameters of named
 members of a request union

---
 packages/openapi-generator/src/route.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 3dc1aaf..1c2d0c7 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -130,15 +130,16 @@ function parseRequestUnion(
   const headerSchema: Schema = { type: 'union', schemas: [] };
   let body: Schema | undefined;
 
-  for (let subSchema of schema.schemas) {
-    if (subSchema.type === 'ref') {
-      let derefE = derefRequestSchema(project, subSchema);
-      if (E.isLeft(derefE)) {
-        return derefE;
-      }
-      subSchema = derefE.right;
+  const subSchemas: Schema[] = [];
+  for (const subSchema of schema.schemas) {
+    const derefE = derefRequestSchema(project, subSchema);
+    if (E.isLeft(derefE)) {
+      return derefE;
     }
+    subSchemas.push(derefE.right);
+  }
 
+  for (const subSchema of subSchemas) {
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
     }
@@ -172,7 +173,7 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
+    for (const subSchema of subSchemas) {
       if (
         subSchema.type === 'object' &&
         subSchema.properties['headers']?.type === 'object'
@@ -196,7 +197,7 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
+  for (const subSchema of subSchemas) {
     if (subSchema.type === 'object') {
       const pathSchema = subSchema.properties['params'];
       if (pathSchema !== undefined && pathSchema.type === 'object') {
-- 
2.43.0


From a90e3a640183ec952e6988af64d40b57e3dd7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 32/48] fix: an action that overrides a spread one replaces its
 routes

---
 packages/openapi-generator/src/apiSpec.ts | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 794e358..1b1a649 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -15,6 +15,16 @@ export function parseApiSpec(
   sourceFile: SourceFile,
   expr: swc.Expression,
 ): E.Either<string, Route[]> {
+  const actionsE = parseApiActions(project, sourceFile, expr);
+  return E.isLeft(actionsE) ? actionsE : E.right([...actionsE.right.values()].flat());
+}
+
+// The routes of each action. As in any object, the last of several actions with the same name counts
+function parseApiActions(
+  project: Project,
+  sourceFile: SourceFile,
+  expr: swc.Expression,
+): E.Either<string, Map<unknown, Route[]>> {
   // If apiSpec is passed an identifier (variable), first resolve it to its actual value
   if (expr.type === 'Identifier') {
     const resolvedE = resolveLiteralOrIdentifier(project, sourceFile, expr);
@@ -22,14 +32,14 @@ export function parseApiSpec(
       return resolvedE;
     }
     const [newSourceFile, resolvedExpr] = resolvedE.right;
-    return parseApiSpec(project, newSourceFile, resolvedExpr);
+    return parseApiActions(project, newSourceFile, resolvedExpr);
   }
 
   if (expr.type !== 'ObjectExpression') {
     return errorLeft(`unimplemented route expression type ${expr.type}`);
   }
 
-  const result: Route[] = [];
+  const result = new Map<unknown, Route[]>();
   for (const apiAction of Object.values(expr.properties)) {
     if (apiAction.type === 'SpreadElement') {
       const spreadExprE = resolveLiteralOrIdentifier(
@@ -49,11 +59,13 @@ export function parseApiSpec(
         }
         spreadExpr = arg.expression;
       }
-      const spreadSpecE = parseApiSpec(project, spreadSourceFile, spreadExpr);
+      const spreadSpecE = parseApiActions(project, spreadSourceFile, spreadExpr);
       if (E.isLeft(spreadSpecE)) {
         return spreadSpecE;
       }
-      result.push(...spreadSpecE.right);
+      for (const [key, routes] of spreadSpecE.right) {
+        result.set(key, routes);
+      }
       continue;
     }
 
@@ -69,6 +81,7 @@ export function parseApiSpec(
     if (routesInit.type !== 'ObjectExpression') {
       return errorLeft(`unimplemented routes type ${routes.type}`);
     }
+    const actionRoutes: Route[] = [];
     for (const route of Object.values(routesInit.properties)) {
       if (route.type !== 'KeyValueProperty') {
         return errorLeft(`unimplemented route type ${route.type}`);
@@ -90,8 +103,13 @@ export function parseApiSpec(
       if (E.isLeft(routeResultE)) {
         return routeResultE;
       }
-      result.push(routeResultE.right);
+      actionRoutes.push(routeResultE.right);
     }
+    const { key } = apiAction;
+    result.set(
+      key.type === 'Identifier' || key.type === 'StringLiteral' ? key.value : key,
+      actionRoutes,
+    );
   }
 
   return E.right(result);
-- 
2.43.0


From b36cedb541dc6c88813eaa962807536887ed1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 33/48] fix: every reference leads to the component of its own
 definition

---
 packages/openapi-generator/src/cli.ts | 78 ++++++++++++---------------
 packages/openapi-generator/src/ref.ts | 38 ++++++-------
 2 files changed, 53 insertions(+), 63 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 5ba4340..4e483ee 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -8,7 +8,7 @@ import type { Expression } from '@swc/core';
 import type { OpenAPIV3 } from 'openapi-types';
 
 import { parseApiSpec, parseApiSpecComment } from './apiSpec';
-import { getRefs } from './ref';
+import { collectRefs } from './ref';
 import { convertRoutesToOpenAPI } from './openapi';
 import type { Route } from './route';
 import type { Schema } from './ir';
@@ -150,55 +150,28 @@ const app = command({
     }
 
     const components: Record<string, Schema> = {};
-    const queue: Schema[] = apiSpec.flatMap((route) => {
-      return [
+    const componentInits: Record<string, Expression> = {};
+    const componentNameMapping: Record<string, Record<string, string>> = {};
+
+    // The schemas to find components in, with the file they are from
+    const queue: [SourceFile, Schema][] = apiSpec
+      .flatMap((route) => [
         ...route.parameters.map((p) => p.schema),
         ...(route.body !== undefined ? [route.body] : []),
         ...Object.values(route.response),
-      ];
-    });
-    const componentLocations: Record<string, string> = {};
-    const componentCollisionCounters: Record<string, number> = {};
-    const componentNameMapping: Record<string, Record<string, string>> = {};
-
-    // Helper to generate unique component names (name, name1, name2, ...)
-    const getUniqueComponentName = (name: string): string => {
-      if (components[name] === undefined) {
-        return name;
-      }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
-      componentCollisionCounters[name] = counter;
-      return `${name}${counter}`;
-    };
+      ])
+      .map((schema) => [entryPoint, schema]);
 
-    let schema: Schema | undefined;
-    while (((schema = queue.pop()), schema !== undefined)) {
-      const refs = getRefs(schema, project.getTypes());
-      for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
+    let next: [SourceFile, Schema] | undefined;
+    while (((next = queue.pop()), next !== undefined)) {
+      const [schemaSourceFile, schema] = next;
+      for (const ref of collectRefs(schema)) {
+        const locationNames = (componentNameMapping[ref.location] ??= {});
+        if (locationNames[ref.name] !== undefined) {
           continue;
         }
 
-        const componentName =
-          components[ref.name] !== undefined
-            ? getUniqueComponentName(ref.name)
-            : ref.name;
-
-        // Track the mapping: location -> originalName -> finalComponentName
-        if (componentNameMapping[ref.location] === undefined) {
-          componentNameMapping[ref.location] = {};
-        }
-        componentNameMapping[ref.location]![ref.name] = componentName;
-
-        const sourceFile = project.get(ref.location);
-        if (sourceFile === undefined) {
-          logError(`Could not find '${ref.name}' from '${ref.location}'`);
-          process.exit(1);
-        }
-
+        const sourceFile = project.get(ref.location) ?? schemaSourceFile;
         const initE = findReferenceInitializer(project, sourceFile, ref);
         if (E.isLeft(initE)) {
           logError(
@@ -208,6 +181,21 @@ const app = command({
         }
         const [newSourceFile, init, comment] = initE.right;
 
+        // Different definitions with the same name get unique component names (name, name1, name2, ...)
+        let componentName = ref.name;
+        for (
+          let counter = 1;
+          components[componentName] !== undefined &&
+          componentInits[componentName] !== init;
+          counter++
+        ) {
+          componentName = `${ref.name}${counter}`;
+        }
+        locationNames[ref.name] = componentName;
+        if (components[componentName] !== undefined) {
+          continue;
+        }
+
         if (init === null) {
           console.log({ ref });
           let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${ref.location}'`;
@@ -247,8 +235,8 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
-        queue.push(codecE.right);
+        componentInits[componentName] = init;
+        queue.push([newSourceFile, codecE.right]);
       }
     }
 
diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..ed57e4c 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -1,35 +1,37 @@
 import type { Schema, Reference } from './ir';
 import fs from 'fs';
 
-export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
+/**
+ * Collect the references in a schema, as they are
+ * @param schema the schema
+ */
+export function collectRefs(schema: Schema): Reference[] {
   if (schema.type === 'ref') {
-    if (!fs.existsSync(schema.location)) {
-      // The location is a node module - we need to populate the location here
-      const newPath = typeMap[schema.name];
-      if (!newPath) {
-        return [];
-      }
-
-      return [{ ...schema, location: newPath }];
-    }
     return [schema];
   } else if (schema.type === 'array') {
-    return getRefs(schema.items, typeMap);
+    return collectRefs(schema.items);
   } else if (
     schema.type === 'intersection' ||
     schema.type === 'union' ||
     schema.type === 'tuple'
   ) {
-    return schema.schemas.reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
-    }, []);
+    return schema.schemas.flatMap(collectRefs);
   } else if (schema.type === 'object') {
-    return Object.values(schema.properties).reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
-    }, []);
+    return Object.values(schema.properties).flatMap(collectRefs);
   } else if (schema.type === 'record') {
-    return getRefs(schema.codomain, typeMap);
+    return collectRefs(schema.codomain);
   } else {
     return [];
   }
 }
+
+export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
+  return collectRefs(schema).flatMap((ref) => {
+    if (fs.existsSync(ref.location)) {
+      return [ref];
+    }
+    // The location is a node module - we need to populate the location here
+    const newPath = typeMap[ref.name];
+    return newPath ? [{ ...ref, location: newPath }] : [];
+  });
+}
-- 
2.43.0


From 6edea79c443894b072f6d3411b929622509e7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 34/48] fix: parse packages that are star exported like those
 that are imported

---
 packages/openapi-generator/src/project.ts | 34 ++++++++++-------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..d047c17 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -77,46 +77,42 @@ export class Project {
 
         this.add(path, sourceFile);
 
-        // Process imports
+        // Process imports and star exports
         const baseDir = p.dirname(path);
-        for (const sym of Object.values(sourceFile.symbols.imports)) {
-          if (!sym.from.startsWith('.')) {
-            if (!this.visitedPackages.has(sym.from)) {
-              const codecs = await this.getCustomCodecs(baseDir, sym.from);
+        const froms = [
+          ...sourceFile.symbols.imports.map((sym) => sym.from),
+          ...sourceFile.symbols.exportStarFiles,
+        ];
+        for (const from of froms) {
+          if (!from.startsWith('.')) {
+            if (!this.visitedPackages.has(from)) {
+              const codecs = await this.getCustomCodecs(baseDir, from);
               if (E.isLeft(codecs)) {
                 return codecs;
               }
 
               if (Object.keys(codecs.right).length > 0) {
-                this.knownImports[sym.from] = {
+                this.knownImports[from] = {
                   ...codecs.right,
-                  ...this.knownImports[sym.from],
+                  ...this.knownImports[from],
                 };
-                logInfo(`Loaded custom codecs for ${sym.from}`);
+                logInfo(`Loaded custom codecs for ${from}`);
               }
 
-              this.visitedPackages.add(sym.from);
+              this.visitedPackages.add(from);
             }
 
-            const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
+            const entryPoint = this.resolveEntryPoint(baseDir, from);
             if (E.isRight(entryPoint) && !this.has(entryPoint.right)) {
               queue.push(entryPoint.right);
             }
           } else {
-            const absImportPathE = this.resolve(baseDir, sym.from);
+            const absImportPathE = this.resolve(baseDir, from);
             if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
               queue.push(absImportPathE.right);
             }
           }
         }
-
-        // Process star exports
-        for (const starExport of sourceFile.symbols.exportStarFiles) {
-          const absImportPathE = this.resolve(baseDir, starExport);
-          if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
-            queue.push(absImportPathE.right);
-          }
-        }
       } catch (err) {
         if (err instanceof Error) {
           return E.left(err.message);
-- 
2.43.0


From b9858e896ca0e8c06894c69b18dd0f468b932d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 35/48] fix: custom codecs of a package are known to the
 project that loads them only

---
 packages/openapi-generator/src/project.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index d047c17..5a24bd5 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -22,7 +22,8 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    // The custom codecs of packages are added to a copy, other projects do not have them
+    this.knownImports = { ...knownImports };
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
-- 
2.43.0


From 6781c6dff81b47a52c3fde80fe98517e055232b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 36/48] fix: a codec file adds to the known codecs of a package

---
 packages/openapi-generator/src/cli.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 4e483ee..bb31336 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -14,7 +14,7 @@ import type { Route } from './route';
 import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
-import { KNOWN_IMPORTS } from './knownImports';
+import { KNOWN_IMPORTS, type KnownImports } from './knownImports';
 import { findReferenceInitializer } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
@@ -91,8 +91,12 @@ const app = command({
         logError(`Could not find default export in ${codecFilePath}`);
         process.exit(1);
       }
-      const customCodecs = codecModule.default(E);
-      knownImports = { ...knownImports, ...customCodecs };
+      const customCodecs: KnownImports = codecModule.default(E);
+      // Add to the known codecs of each package
+      knownImports = { ...knownImports };
+      for (const [packageName, codecs] of Object.entries(customCodecs)) {
+        knownImports[packageName] = { ...knownImports[packageName], ...codecs };
+      }
     }
 
     const projectE = await new Project({}, knownImports).parseEntryPoint(filePath);
-- 
2.43.0


From 1170ec6af39e92ae5079032d0e2b767b61e49d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 37/48] fix: a server url may start with a variable

---
 packages/openapi-generator/src/apiSpec.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 1b1a649..b1dfb94 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -122,6 +122,15 @@ export function parseApiSpecComment(
     return undefined;
   }
   const description = comment.description;
-  const url = comment.tags.find((tag) => tag.tag === 'url')?.name;
-  return url !== undefined ? { url, description } : undefined;
+  const urlTag = comment.tags.find((tag) => tag.tag === 'url');
+  if (urlTag === undefined) {
+    return undefined;
+  }
+  // A variable at the start of the url is taken for the type of the tag
+  const tokens = urlTag.source[0]?.tokens;
+  const url =
+    tokens !== undefined && tokens.type !== ''
+      ? `${tokens.type}${tokens.postType === '' ? tokens.name : ''}`
+      : urlTag.name;
+  return { url, description };
 }
-- 
2.43.0


From dcc1cd289fc16089363173d49714fef743e9baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 38/48] fix: encodings of a boolean alone do not become a
 boolean

---
 packages/openapi-generator/src/optimize.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 953ff53..04f33c7 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -90,7 +90,11 @@ function consolidateUnion(schema: Schema): Schema {
     ),
   );
 
-  if (booleanSchemas.length === innerSchemas.length && booleanValues.size > 1) {
+  if (
+    booleanSchemas.length === innerSchemas.length &&
+    booleanSchemas.some((s) => s.type === 'boolean') &&
+    booleanValues.size > 1
+  ) {
     return { type: 'boolean' };
   }
 
-- 
2.43.0


From 1af88a4e6e5a986ef64a7e123b34eb4fdb789b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 39/48] fix: enum members without a value are numbers

---
 packages/openapi-generator/src/symbol.ts | 46 ++++++++++++++++--------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 667b596..9e63e19 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -157,21 +157,39 @@ function parseDeclaration(
     const comments = leadingComment(src, srcSpanStart, prevEnd, decl.span.start);
     const comment = comments[comments.length - 1];
     // Construct a synthetic object declaration
-    const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
-      return {
-        type: 'KeyValueProperty',
-        key: {
-          type: 'Identifier',
-          value: member.id.value,
-          span: member.id.span,
-          optional: false,
-        },
-        value: member.init ?? {
+    const property = (
+      name: string,
+      span: swc.Span,
+      value: swc.Expression,
+    ): swc.KeyValueProperty => ({
+      type: 'KeyValueProperty',
+      key: { type: 'Identifier', value: name, span, optional: false },
+      value,
+    });
+    // A member without an initializer is one more than the member before it
+    let next: number | undefined = 0;
+    const properties = subDeclaration.members.flatMap((member) => {
+      const name = member.id.value;
+      const span = member.id.span;
+      const value: swc.Expression =
+        member.init ??
+        (next !== undefined
+          ? { type: 'NumericLiteral', value: next, span }
+          : { type: 'Invalid', span });
+      const result = [property(name, span, value)];
+      if (value.type === 'NumericLiteral') {
+        next = value.value + 1;
+        // The values of numeric members are mapped to their names
+        const literal: swc.Expression = {
           type: 'StringLiteral',
-          value: member.id.value,
-          span: member.id.span,
-        },
-      };
+          value: name,
+          span: value.span,
+        };
+        result.push(property(String(value.value), value.span, literal));
+      } else {
+        next = undefined;
+      }
+      return result;
     });
     const syntheticObject: swc.ObjectExpression = {
       type: 'ObjectExpression',
-- 
2.43.0


From b0526681647af6ac1469207197de9bd5149cf82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 40/48] fix: bounds of the codecs of non-negative numbers in
 strings

---
 packages/openapi-generator/src/knownImports.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 29042a3..b03e181 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -235,6 +235,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
+        minimum: 0,
         decodedType: 'number',
       }),
     NonPositive: () =>
@@ -331,7 +332,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
-        maximum: 0,
+        minimum: 0,
         decodedType: 'bigint',
       }),
     NonPositiveBigInt: () =>
-- 
2.43.0


From 2ddf55c15803f993134542c2a52271b0abcb6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 41/48] fix: read-only arrays that are not empty have at least
 one item

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index b03e181..0d6a579 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -397,7 +397,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     NonEmptyString: () => E.right({ type: 'string', minLength: 1 }),
     readonlyNonEmptyArray: (_, innerSchema) =>
-      E.right({ type: 'array', items: innerSchema }),
+      E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     UUID: () => E.right({ type: 'string', title: 'uuid' }),
     Json: () => E.right({ type: 'any', title: 'JSON' }),
     JsonRecord: () => E.right({ type: 'record', codomain: { type: 'any' } }),
-- 
2.43.0


From dfd744a52e3a4f64f0f21ec80f6bb9cd061628f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 42/48] fix: keep the description of a codec whose comment has
 tags alone

---
 packages/openapi-generator/src/openapi.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 336554c..df1ba9c 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -337,7 +337,8 @@ export function schemaToOpenAPI(
     if (isPrivate && isPublic) {
       throw new Error('Cannot use both @public and @private on the same schema field');
     }
-    const description = schema.comment?.description ?? schema.description;
+    // A comment with tags alone describes nothing
+    const description = schema.comment?.description || schema.description;
 
     const defaultOpenAPIObject = {
       ...(isGiven(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
-- 
2.43.0


From 41d26988893313b2e6d193a68c6dea8763af4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 43/48] fix: document the description of a parameter that its
 codec gives

---
 packages/openapi-generator/src/openapi.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index df1ba9c..8e9ccad 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -445,6 +445,10 @@ function routeToOpenAPI(
         // Array types not allowed here
         const schema = schemaToOpenAPI(p.schema, componentNameMapping);
 
+        // The description is the parameter's own, wherever the schema got it from
+        const description =
+          (schema as OpenAPIV3.SchemaObject | undefined)?.description ??
+          p.schema?.comment?.description;
         if (schema && 'description' in schema) {
           delete schema.description;
         }
@@ -457,9 +461,7 @@ function routeToOpenAPI(
 
         return {
           name: p.name,
-          ...(p.schema?.comment?.description !== undefined
-            ? { description: p.schema.comment.description }
-            : {}),
+          ...(description !== undefined ? { description } : {}),
           in: p.type,
           ...(hasInternalFlag ? { 'x-internal': internalValue } : {}),
           ...(p.required ? { required: true } : {}),
-- 
2.43.0


From f15948d7a78e766c9730a091aeb6af7a363ce2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 44/48] fix: do not take a codec of the same name from
 elsewhere for one of a package

A codec imported from a package that could not be found there was replaced by
whatever other module of the project happened to export that name.
---
 packages/openapi-generator/src/resolveInit.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index e8e6825..f55d997 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -108,6 +108,13 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+function packageName(path: string): string {
+  return path
+    .split('/')
+    .slice(0, path.startsWith('@') ? 2 : 1)
+    .join('/');
+}
+
 /**
  * Find the initializer of the declaration that a reference refers to
  * @param project the project
@@ -131,9 +138,10 @@ export function findReferenceInitializer(
       }
     }
 
-    // Otherwise resolve the path from the project types
+    // Otherwise resolve the path from the project types, which may be from elsewhere as well
     const path = project.getTypes()[ref.name];
-    if (path === undefined)
+    const packageDir = `/node_modules/${packageName(ref.location)}/`;
+    if (path === undefined || !path.includes(packageDir))
       return errorLeft(
         `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
           `To fix this, add the codec definition to your codec config file. ` +
-- 
2.43.0


From cd22ccb47d990c3d8e11052e8a9cd7bff43bb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 45/48] fix: do not fail on declarations without a value beside
 a specification

---
 packages/openapi-generator/src/cli.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index bb31336..5e03671 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -115,7 +115,7 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      if (symbol.init === undefined) {
+      if (symbol.init === undefined || symbol.init === null) {
         continue;
       } else if (symbol.init.type !== 'CallExpression') {
         continue;
-- 
2.43.0


From 999bddeb5f8ec18dadd2f09c9baf9fa33d31daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 46/48] fix: refuse functions whose blocks do more than return

A block with local declarations or earlier returns was documented as whatever
its last return names in the module.
---
 packages/openapi-generator/src/codec.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index a976254..984c675 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -469,6 +469,13 @@ function parseFunctionBody(
     return errorLeft('Function body is undefined');
   }
   if (func.body.type === 'BlockStatement') {
+    // Other statements may return something else, or declare names that hide those of the module
+    const unsupported = func.body.stmts.find(
+      (s) => s.type !== 'ReturnStatement' && s.type !== 'ExpressionStatement',
+    );
+    if (unsupported !== undefined) {
+      return errorLeft(`Unimplemented statement type ${unsupported.type} in a function`);
+    }
     const returnStmt = func.body.stmts.find((s) => s.type === 'ReturnStatement');
     if (!returnStmt || returnStmt.type !== 'ReturnStatement') {
       return errorLeft('BlockStatement must contain a return statement');
-- 
2.43.0


From 4a273d5dbf9ab697fd91fcc81ec7a097a8952bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 47/48] fix: keep comments off the schemas that custom codecs
 share

A custom codec that always returns the same schema had the comment of one
declaration documented everywhere.
---
 packages/openapi-generator/src/codec.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 984c675..e8eeef5 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -488,6 +488,16 @@ function parseFunctionBody(
   return parseCodecInitializer(project, source, func.body);
 }
 
+/**
+ * Copies the schema of a codec, which gets the comment of its declaration, as custom codecs may always return the same one
+ */
+function copySchema(schemaE: E.Either<string, Schema>): E.Either<string, Schema> {
+  return pipe(
+    schemaE,
+    E.map((schema) => ({ ...schema })),
+  );
+}
+
 export function parseCodecInitializer(
   project: Project,
   source: SourceFile,
@@ -505,7 +515,7 @@ export function parseCodecInitializer(
     }
 
     const deref: DerefFn = () => E.left('Unimplemented deref');
-    return identifier.schema(deref);
+    return copySchema(identifier.schema(deref));
   } else if (init.type === 'CallExpression') {
     const callee = init.callee;
     if (callee.type !== 'Identifier' && callee.type !== 'MemberExpression') {
@@ -570,7 +580,7 @@ export function parseCodecInitializer(
       args,
       E.sequenceArray,
       E.chain((args) => pipe(args.map(deref), E.sequenceArray)),
-      E.chain((args) => identifier.schema(deref, ...args)),
+      E.chain((args) => copySchema(identifier.schema(deref, ...args))),
     );
   } else {
     return errorLeft(`Unimplemented initializer type ${init.type}`);
-- 
2.43.0


From 3936abe6a4d2510ad17362bc43e35a9871e055d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 48/48] fix: read functions whose declarations are not used in
 what they return

---
 packages/openapi-generator/src/codec.ts | 40 +++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index e8eeef5..abde962 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -460,6 +460,24 @@ export function parsePlainInitializer(
   }
 }
 
+function usesNames(node: unknown, names: string[]): boolean {
+  if (Array.isArray(node)) {
+    return node.some((child) => usesNames(child, names));
+  } else if (typeof node !== 'object' || node === null) {
+    return false;
+  }
+  const { type, ...children } = node as swc.Node & Record<string, any>;
+  if (type === 'Identifier') {
+    return names.includes(children['value']);
+  }
+  return Object.entries(children).some(
+    ([name, child]) =>
+      // The names of properties are not variables
+      !((name === 'key' || name === 'property') && child?.type === 'Identifier') &&
+      usesNames(child, names),
+  );
+}
+
 function parseFunctionBody(
   project: Project,
   source: SourceFile,
@@ -469,12 +487,19 @@ function parseFunctionBody(
     return errorLeft('Function body is undefined');
   }
   if (func.body.type === 'BlockStatement') {
-    // Other statements may return something else, or declare names that hide those of the module
-    const unsupported = func.body.stmts.find(
-      (s) => s.type !== 'ReturnStatement' && s.type !== 'ExpressionStatement',
-    );
-    if (unsupported !== undefined) {
-      return errorLeft(`Unimplemented statement type ${unsupported.type} in a function`);
+    const localNames: string[] = [];
+    for (const stmt of func.body.stmts) {
+      if (stmt.type === 'FunctionDeclaration' || stmt.type === 'ClassDeclaration') {
+        localNames.push(stmt.identifier.value);
+      } else if (
+        stmt.type === 'VariableDeclaration' &&
+        stmt.declarations.every((d) => d.id.type === 'Identifier')
+      ) {
+        localNames.push(...stmt.declarations.map((d) => (d.id as swc.Identifier).value));
+      } else if (stmt.type !== 'ReturnStatement' && stmt.type !== 'ExpressionStatement') {
+        // It may return something else
+        return errorLeft(`Unimplemented statement type ${stmt.type} in a function`);
+      }
     }
     const returnStmt = func.body.stmts.find((s) => s.type === 'ReturnStatement');
     if (!returnStmt || returnStmt.type !== 'ReturnStatement') {
@@ -483,6 +508,9 @@ function parseFunctionBody(
     if (!returnStmt.argument) {
       return errorLeft('Return statement must have an argument');
     }
+    if (usesNames(returnStmt.argument, localNames)) {
+      return errorLeft('Declarations in functions are not supported');
+    }
     return parseCodecInitializer(project, source, returnStmt.argument);
   }
   return parseCodecInitializer(project, source, func.body);
-- 
2.43.0

