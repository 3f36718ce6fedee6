From 16d9c334b4855cb0ee9e88a7df596356e5460d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 01/63] fix: restore escaped characters in the package path of
 a handler name

---
 utils/splitHandlerPath.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..75378c5 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -18,6 +21,13 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 	pathParts = pathParts[:len(pathParts)-1]
 	pathParts = append(pathParts, handlerParts[0])
 
+	// The runtime escapes dots in the last path element and special characters in any element as %xx, so restore them
+	for i, part := range pathParts {
+		if unescaped, err := url.PathUnescape(part); err == nil {
+			pathParts[i] = unescaped
+		}
+	}
+
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
 
-- 
2.43.0


From d97282a6ce535d94914675c8f85f9624e5defad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 02/63] fix: drop duplicate return types and keep distinct ones
 in AddReturnType

---
 safePushing.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..c3e374f 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -1,24 +1,40 @@
 package astra
 
+import "reflect"
+
 // AddReturnType adds a return type to a slice of return types if it doesn't already exist.
-// It uses the field type, package and status code to determine if the return type already exists.
+// It uses the field type, package, content type and status code to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
-		if len(prev) == 0 {
-			prev = append(prev, newReturn)
-		} else {
-			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
-				}
+		var found bool
+		for _, existingReturn := range prev {
+			if newReturn.StatusCode == existingReturn.StatusCode && newReturn.ContentType == existingReturn.ContentType && isSameType(newReturn.Field, existingReturn.Field) {
+				found = true
+				break
 			}
 		}
+
+		if !found {
+			prev = append(prev, newReturn)
+		}
 	}
 
 	return prev
 }
 
+// isSameType determines whether two fields describe the same type, including the types it is made of.
+func isSameType(a, b Field) bool {
+	return a.Type == b.Type &&
+		a.Package == b.Package &&
+		a.SliceType == b.SliceType &&
+		a.ArrayType == b.ArrayType &&
+		a.ArrayLength == b.ArrayLength &&
+		a.MapKeyPackage == b.MapKeyPackage &&
+		a.MapKeyType == b.MapKeyType &&
+		a.MapValueType == b.MapValueType &&
+		reflect.DeepEqual(a.StructFields, b.StructFields)
+}
+
 // AddComponent adds a component to a slice of components if it doesn't already exist.
 // It uses the field type and package to determine if the component already exists.
 func AddComponent(prev []Field, n ...Field) []Field {
-- 
2.43.0


From e78f1933d622e2662b247f7c659e2eaea2c829e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 03/63] fix: read the options of binding and validation tags as
 the encoders do

---
 astTraversal/tags.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/astTraversal/tags.go b/astTraversal/tags.go
index 4be5a0f..920a64c 100644
--- a/astTraversal/tags.go
+++ b/astTraversal/tags.go
@@ -2,6 +2,7 @@ package astTraversal
 
 import (
 	"reflect"
+	"slices"
 	"strings"
 )
 
@@ -56,17 +57,13 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		tagItems := strings.Split(tagValue, ",")
 		if tagItems[0] == "" {
 			newBindingTag.Name = field
-		} else if tagItems[0] != "-" {
+		} else if tagValue != "-" { // Only a lone "-" hides the field, "-," names it "-".
 			newBindingTag.Name = tagItems[0]
 		} else {
 			newBindingTag.NotShown = true
 		}
 
-		if len(tagItems) > 1 && tagItems[1] == "omitempty" {
-			newBindingTag.ReturnOptional = true
-		} else {
-			newBindingTag.ReturnOptional = false
-		}
+		newBindingTag.ReturnOptional = slices.Contains(tagItems[1:], "omitempty")
 
 		bindingTags[bindingTag] = newBindingTag
 	}
@@ -82,7 +79,7 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		}
 
 		validationTags[validationTag] = ValidationTag{
-			IsRequired: strings.Contains(tagValue, "required"),
+			IsRequired: slices.Contains(strings.Split(tagValue, ","), "required"),
 		}
 	}
 
-- 
2.43.0


From 88177565a4990b28ba14129a7ddf05c79062f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 04/63] fix: document TRACE routes

---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..606458f 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -238,6 +238,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From 7c316e728d3e1102c91bbe76e5b7c98f32d7ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 05/63] fix: document every form field and body of a content
 type

---
 outputs/openapi/generate.go | 33 +++++++++++++++++++++++--------
 outputs/openapi/schema.go   | 39 +++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 606458f..ca7ac59 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -136,10 +136,11 @@ func Generate(filePath string) astra.ServiceFunction {
 				}
 			}
 
+			formFields := make(map[string]map[string]Schema)
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				schema, bound := mapBodyParamToSchema(bindingType, bodyParam)
 				if !bound {
 					continue
 				}
@@ -150,21 +151,37 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				var mediaType MediaType
+				mediaType := operation.RequestBody.Content[bodyParam.ContentType]
 				if bodyParam.Name != "" {
-					mediaType.Schema = Schema{
-						Type: "object",
-						Properties: map[string]Schema{
-							bodyParam.Name: schema,
-						},
+					if formFields[bodyParam.ContentType] == nil {
+						formFields[bodyParam.ContentType] = make(map[string]Schema)
 					}
+					formFields[bodyParam.ContentType][bodyParam.Name] = schema
 				} else {
-					mediaType.Schema = schema
+					mediaType.Schema = addAlternativeToSchema(mediaType.Schema, schema)
 				}
 
 				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
 			}
 
+			// The named form fields of a content type make up one object, in addition to any bound body
+			for contentType, properties := range formFields {
+				mediaType := operation.RequestBody.Content[contentType]
+				form := Schema{
+					Type:       "object",
+					Properties: properties,
+				}
+				if reflect.DeepEqual(mediaType, MediaType{}) {
+					mediaType.Schema = form
+				} else {
+					mediaType.Schema = Schema{
+						AllOf: []Schema{mediaType.Schema, form},
+					}
+				}
+
+				operation.RequestBody.Content[contentType] = mediaType
+			}
+
 			var responseHeaders map[string]Header
 			if len(endpoint.ResponseHeaders) > 0 {
 				responseHeaders = make(map[string]Header)
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..ce7c19e 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,8 @@
 package openapi
 
 import (
+	"reflect"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -41,6 +43,43 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 	}
 }
 
+// mapBodyParamToSchema maps a body param to its schema, taking into account whether it's an array or a map.
+func mapBodyParamToSchema(bindingType astTraversal.BindingTagType, bodyParam astra.BodyParam) (Schema, bool) {
+	if !bodyParam.IsBound && (bodyParam.IsArray || bodyParam.IsMap) {
+		return mapParamToSchema(bindingType, astra.Param{
+			Field:   bodyParam.Field,
+			IsArray: bodyParam.IsArray,
+			IsMap:   bodyParam.IsMap,
+		})
+	}
+
+	return mapFieldToSchema(bindingType, bodyParam.Field)
+}
+
+// addAlternativeToSchema adds the schema of a body to the schema of a content type.
+// Several different bodies are alternatives.
+func addAlternativeToSchema(schema Schema, alternative Schema) Schema {
+	if reflect.DeepEqual(schema, Schema{}) || reflect.DeepEqual(schema, alternative) {
+		return alternative
+	}
+
+	if len(schema.OneOf) == 0 {
+		return Schema{
+			OneOf: []Schema{schema, alternative},
+		}
+	}
+
+	for _, existing := range schema.OneOf {
+		if reflect.DeepEqual(existing, alternative) {
+			return schema
+		}
+	}
+
+	schema.OneOf = append(schema.OneOf, alternative)
+
+	return schema
+}
+
 func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
 	if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
-- 
2.43.0


From a3aa5b03de569f19de4583442b680aa95662a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 06/63] fix: document array bodies and responses

---
 accepted.go               |  1 +
 formatTypes.go            |  3 +++
 outputs/openapi/schema.go | 13 ++++++++-----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/accepted.go b/accepted.go
index 722b92f..0ea13c8 100644
--- a/accepted.go
+++ b/accepted.go
@@ -26,6 +26,7 @@ var AcceptedTypes = []string{
 	"struct",
 	"map",
 	"slice",
+	"array",
 	"any",
 	"file", // not an official type, but we use it to replace for the binary format
 }
diff --git a/formatTypes.go b/formatTypes.go
index a9a16ab..232ba54 100644
--- a/formatTypes.go
+++ b/formatTypes.go
@@ -82,6 +82,9 @@ var PredefinedTypeMap = map[string]TypeFormat{
 	"slice": {
 		Type: "array",
 	},
+	"array": {
+		Type: "array",
+	},
 	"any": {
 		Type: "",
 	},
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index ce7c19e..6dee754 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -92,12 +92,15 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 		return Schema{}, false
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
-		if field.Type == "slice" {
-			itemSchema := Schema{
-				Type: mapPredefinedTypeFormat(field.SliceType).Type,
+		if field.Type == "slice" || field.Type == "array" {
+			itemType := field.SliceType
+			if field.Type == "array" {
+				itemType = field.ArrayType
 			}
-			if !astra.IsAcceptedType(field.SliceType) {
-				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
+
+			itemSchema := mapPredefinedTypeFormat(itemType)
+			if !astra.IsAcceptedType(itemType) {
+				componentRef, bound := makeComponentRef(bindingType, itemType, field.Package)
 				if bound {
 					itemSchema = Schema{
 						Ref: componentRef,
-- 
2.43.0


From a8496dad71531e90f34da6a0d4658963a51e3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 07/63] fix: document every response type of a status code and
 content type

---
 outputs/openapi/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index ca7ac59..534fef3 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -216,7 +216,9 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				if !reflect.DeepEqual(mediaType, MediaType{}) {
+				if bound && returnType.Field.Type != "nil" {
+					existing := operation.Responses[statusCode].Content[returnType.ContentType]
+					mediaType.Schema = addAlternativeToSchema(existing.Schema, mediaType.Schema)
 					operation.Responses[statusCode].Content[returnType.ContentType] = mediaType
 				}
 			}
-- 
2.43.0


From 06555f0baaf851420e0f3722b8a31bbd6061dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 08/63] fix: document the fields of anonymous structs in bodies
 and responses

---
 outputs/openapi/generate.go | 12 ++++++------
 outputs/openapi/schema.go   | 15 +++++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 534fef3..66521b2 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -57,7 +57,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, pathParam := range endpoint.PathParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", pathParam.Name).Msg("Adding endpointPath parameter")
-				schema, bound := mapParamToSchema(astTraversal.URIBindingTag, pathParam)
+				schema, bound := mapParamToSchema(s, astTraversal.URIBindingTag, pathParam)
 				if !bound {
 					continue
 				}
@@ -72,7 +72,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, requestHeader := range endpoint.RequestHeaders {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", requestHeader.Name).Msg("Adding request header")
-				schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, requestHeader)
+				schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, requestHeader)
 				if !bound {
 					continue
 				}
@@ -89,7 +89,7 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, queryParam := range endpoint.QueryParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", queryParam.Name).Msg("Adding query parameter")
-				schema, bound := mapParamToSchema(astTraversal.FormBindingTag, queryParam)
+				schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
 				if !bound {
 					continue
 				}
@@ -140,7 +140,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
-				schema, bound := mapBodyParamToSchema(bindingType, bodyParam)
+				schema, bound := mapBodyParamToSchema(s, bindingType, bodyParam)
 				if !bound {
 					continue
 				}
@@ -187,7 +187,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				responseHeaders = make(map[string]Header)
 				for _, responseHeader := range endpoint.ResponseHeaders {
 					s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", responseHeader.Name).Msg("Adding response header")
-					schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, responseHeader)
+					schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, responseHeader)
 					if bound {
 						responseHeaders[responseHeader.Name] = Header{
 							Schema:   schema,
@@ -201,7 +201,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("return", returnType.Field.Name).Msg("Adding return type")
 				var mediaType MediaType
 				bindingType := astra.ContentTypeToBindingTag(returnType.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, returnType.Field)
+				schema, bound := mapFieldToSchema(s, bindingType, returnType.Field)
 				if bound {
 					mediaType.Schema = schema
 				}
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 6dee754..d262fd6 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -7,9 +7,9 @@ import (
 	"github.com/ls6-events/astra/astTraversal"
 )
 
-func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param) (Schema, bool) {
+func mapParamToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, param astra.Param) (Schema, bool) {
 	if param.IsBound {
-		return mapFieldToSchema(bindingType, param.Field)
+		return mapFieldToSchema(service, bindingType, param.Field)
 	} else if param.IsArray {
 		itemSchema := mapPredefinedTypeFormat(param.Field.Type)
 		if !astra.IsAcceptedType(param.Field.Type) {
@@ -44,16 +44,16 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 }
 
 // mapBodyParamToSchema maps a body param to its schema, taking into account whether it's an array or a map.
-func mapBodyParamToSchema(bindingType astTraversal.BindingTagType, bodyParam astra.BodyParam) (Schema, bool) {
+func mapBodyParamToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, bodyParam astra.BodyParam) (Schema, bool) {
 	if !bodyParam.IsBound && (bodyParam.IsArray || bodyParam.IsMap) {
-		return mapParamToSchema(bindingType, astra.Param{
+		return mapParamToSchema(service, bindingType, astra.Param{
 			Field:   bodyParam.Field,
 			IsArray: bodyParam.IsArray,
 			IsMap:   bodyParam.IsMap,
 		})
 	}
 
-	return mapFieldToSchema(bindingType, bodyParam.Field)
+	return mapFieldToSchema(service, bindingType, bodyParam.Field)
 }
 
 // addAlternativeToSchema adds the schema of a body to the schema of a content type.
@@ -80,7 +80,7 @@ func addAlternativeToSchema(schema Schema, alternative Schema) Schema {
 	return schema
 }
 
-func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
+func mapFieldToSchema(service *astra.Service, bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
 	if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
@@ -90,6 +90,9 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 		}
 
 		return Schema{}, false
+	} else if field.Type == "struct" && len(field.StructFields) > 0 {
+		// Anonymous structs have no component to refer to.
+		return componentToSchema(service, field, bindingType)
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" || field.Type == "array" {
-- 
2.43.0


From 321f93c1d6f674f9a9b2738ace45dbe16dc86d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 09/63] fix: give components of different packages different
 names

---
 outputs/openapi/components.go | 127 ++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 61 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..bb1639c 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -33,82 +33,87 @@ func getPackageName(pkg string) string {
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
-	// Group the components by package name.
-	packageNames := make(map[string][]astra.Field)
+	// Names of services that were processed before must not leak into this one.
+	clear(collisionSafeNames)
+
+	packagePrefixes := makePackagePrefixes(components)
 	for _, component := range components {
-		packageName := getPackageName(component.Package)
+		packagePrefix := packagePrefixes[component.Package]
 
-		// If the package name doesn't exist in the map, create it.
-		if _, exists := packageNames[packageName]; !exists {
-			packageNames[packageName] = make([]astra.Field, 0)
+		bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+		for _, bindingType := range bindingTags {
+			collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = makeComponentName(packagePrefix, component.Name, bindingType, uniqueBindings)
 		}
+	}
+}
 
-		// Append the component to the package name.
-		packageNames[packageName] = append(packageNames[packageName], component)
+// makeComponentName makes the name of a component.
+// If there are unique bindings, we need to add the binding type to the name.
+func makeComponentName(packagePrefix, name string, bindingType astTraversal.BindingTagType, uniqueBindings bool) string {
+	if uniqueBindings {
+		return packagePrefix + "." + string(bindingType) + "." + name
 	}
 
-	for _, components := range packageNames {
-		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
-		sameUntil := 0
-		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
-				// If the packages don't match, we need to find the first point where they don't match.
-				if components[i].Package != components[j].Package {
-					// Create a slice of the package path split by "/".
-					iComponentPackageSplit := strings.Split(components[i].Package, "/")
-					jComponentPackageSplit := strings.Split(components[j].Package, "/")
-
-					// Reverse the package path so we can iterate from the end first.
-					slices.Reverse(iComponentPackageSplit)
-					slices.Reverse(jComponentPackageSplit)
-
-					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
-					}
-					break
-				}
+	return packagePrefix + "." + name
+}
+
+// makePackagePrefixes makes a prefix for the component names of every package.
+// It is the package name, preceded by as many more parts of the package path as are needed to keep the component names of different packages apart.
+// e.g. github.com/ls6-events/astra and github.com/different/astra give us "ls6-events.astra" and "different.astra".
+func makePackagePrefixes(components []astra.Field) map[string]string {
+	partCounts := make(map[string]int)
+	for _, component := range components {
+		partCounts[component.Package] = 1
+	}
+
+	for {
+		packagePrefixes := make(map[string]string)
+		for packagePath, partCount := range partCounts {
+			parts := strings.Split(packagePath, "/")
+			if partCount <= len(parts) {
+				packagePrefixes[packagePath] = strings.Join(parts[len(parts)-partCount:], ".")
+			} else {
+				// Even the whole path isn't enough, as its parts can contain dots themselves.
+				packagePrefixes[packagePath] = strings.NewReplacer("_", "_u", "/", "_s").Replace(packagePath)
 			}
 		}
 
-		// Iterate over every component and create a collision safe name.
+		// Find the packages whose component names collide with those of other packages.
+		packagesByName := make(map[string][]string)
+		for packagePath, packagePrefix := range packagePrefixes {
+			// Two packages never share a prefix, even if the names of their components differ.
+			packagesByName[packagePrefix+"/"] = append(packagesByName[packagePrefix+"/"], packagePath)
+		}
 		for _, component := range components {
 			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
 			for _, bindingType := range bindingTags {
-				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
-				if sameUntil > 0 {
-					// Split the package path by "/".
-					splitPackage := strings.Split(component.Package, "/")
-
-					// Pick the final part of the package path, guided by sameUntil.
-					// We add 1 because we want to access the first different part of the package path.
-					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
-					// and split into "ls6-events" and "different".
-
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
-
-					if uniqueBindings {
-						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + string(bindingType) + "." + component.Name
-					} else {
-						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + component.Name
-					}
-				} else {
-					if uniqueBindings {
-						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + string(bindingType) + "." + component.Name
-					} else {
-						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + component.Name
-					}
+				name := makeComponentName(packagePrefixes[component.Package], component.Name, bindingType, uniqueBindings)
+				if !slices.Contains(packagesByName[name], component.Package) {
+					packagesByName[name] = append(packagesByName[name], component.Package)
+				}
+			}
+		}
+
+		colliding := make(map[string]bool)
+		for _, packagePaths := range packagesByName {
+			if len(packagePaths) > 1 {
+				for _, packagePath := range packagePaths {
+					colliding[packagePath] = true
 				}
 			}
 		}
+
+		// Use another part of their package paths, or finally all of it.
+		changed := false
+		for packagePath := range colliding {
+			if partCounts[packagePath] <= strings.Count(packagePath, "/")+1 {
+				partCounts[packagePath]++
+				changed = true
+			}
+		}
+		if !changed {
+			return packagePrefixes
+		}
 	}
 }
 
-- 
2.43.0


From a57fef1af49dbb90d91f73abdc4037747d50d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 10/63] fix: keep references to structs with mixed binding tags
 intact

---
 outputs/openapi/components.go | 118 +++++++++++++++++++++++++++-------
 outputs/openapi/generate.go   |   3 +-
 2 files changed, 97 insertions(+), 24 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index bb1639c..d5923a4 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -40,8 +40,21 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	for _, component := range components {
 		packagePrefix := packagePrefixes[component.Package]
 
-		bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+		bindingTags, _ := astra.ExtractBindingTags(component.StructFields)
+		bindingTypes, uniqueBindings := componentBindings(component)
 		for _, bindingType := range bindingTags {
+			if bindingType == astTraversal.NoBindingTag && !slices.Contains(bindingTypes, bindingType) {
+				// Bindings that the type isn't tagged for refer to one that it's tagged for, preferably JSON.
+				if slices.Contains(bindingTypes, astTraversal.JSONBindingTag) {
+					bindingType = astTraversal.JSONBindingTag
+				} else {
+					bindingType = bindingTypes[0]
+				}
+
+				collisionSafeNames[collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)] = makeComponentName(packagePrefix, component.Name, bindingType, uniqueBindings)
+				continue
+			}
+
 			collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = makeComponentName(packagePrefix, component.Name, bindingType, uniqueBindings)
 		}
 	}
@@ -85,8 +98,8 @@ func makePackagePrefixes(components []astra.Field) map[string]string {
 			packagesByName[packagePrefix+"/"] = append(packagesByName[packagePrefix+"/"], packagePath)
 		}
 		for _, component := range components {
-			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
-			for _, bindingType := range bindingTags {
+			bindingTypes, uniqueBindings := componentBindings(component)
+			for _, bindingType := range bindingTypes {
 				name := makeComponentName(packagePrefixes[component.Package], component.Name, bindingType, uniqueBindings)
 				if !slices.Contains(packagesByName[name], component.Package) {
 					packagesByName[name] = append(packagesByName[name], component.Package)
@@ -117,6 +130,37 @@ func makePackagePrefixes(components []astra.Field) map[string]string {
 	}
 }
 
+// componentBindings returns the bindings that a component needs to have a schema for, and whether those schemas are different.
+// If its fields have no binding tags at all, that is a single one that isn't specific to any binding.
+func componentBindings(component astra.Field) (bindingTypes []astTraversal.BindingTagType, uniqueBindings bool) {
+	extracted, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+	if len(component.StructFields) > 0 {
+		for _, bindingType := range astTraversal.BindingTags {
+			if slices.Contains(extracted, bindingType) {
+				bindingTypes = append(bindingTypes, bindingType)
+			}
+		}
+	}
+	if len(bindingTypes) == 0 {
+		return []astTraversal.BindingTagType{astTraversal.NoBindingTag}, false
+	}
+
+	// Fields that are tagged for some of the bindings only are missing from the others.
+	for _, field := range component.StructFields {
+		if _, ok := field.StructFieldBindingTags[astTraversal.NoBindingTag]; ok || field.IsEmbedded {
+			continue
+		}
+
+		for _, bindingType := range bindingTypes {
+			if _, ok := field.StructFieldBindingTags[bindingType]; !ok {
+				uniqueBindings = true
+			}
+		}
+	}
+
+	return bindingTypes, uniqueBindings
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
@@ -133,10 +177,50 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	if !bound {
 		componentName, bound = collisionSafeNames[collisionSafeKey(astTraversal.NoBindingTag, name, pkg)]
 	}
+	if !bound && bindingType == astTraversal.NoBindingTag {
+		// Nothing asks for a specific binding, so any of the type's bindings will do, preferably JSON.
+		for _, anyBindingType := range append([]astTraversal.BindingTagType{astTraversal.JSONBindingTag}, astTraversal.BindingTags...) {
+			componentName, bound = collisionSafeNames[collisionSafeKey(anyBindingType, name, pkg)]
+			if bound {
+				break
+			}
+		}
+	}
 
 	return componentName, bound
 }
 
+// structProperties returns the schemas of the struct's own properties for a binding, without those of embedded structs.
+// Fields that are only tagged for other bindings aren't part of it, the struct is unbound if that leaves none of its fields.
+func structProperties(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (properties map[string]Schema, bound bool) {
+	properties = make(map[string]Schema)
+	bound = len(component.StructFields) == 0
+	for _, field := range component.StructFields {
+		if field.IsEmbedded {
+			bound = true
+			continue
+		}
+
+		fieldBinding := field.StructFieldBindingTags[bindingType]
+		if fieldBinding == (astTraversal.BindingTag{}) {
+			fieldBinding = field.StructFieldBindingTags[astTraversal.NoBindingTag]
+		}
+		if fieldBinding == (astTraversal.BindingTag{}) {
+			continue
+		}
+
+		bound = true
+		if !fieldBinding.NotShown {
+			fieldSchema, fieldBound := componentToSchema(service, field, bindingType)
+			if fieldBound {
+				properties[fieldBinding.Name] = fieldSchema
+			}
+		}
+	}
+
+	return properties, bound
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -144,11 +228,17 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	}
 
 	if component.Type == "struct" {
-		embeddedProperties := make([]Schema, 0)
+		properties, propertiesBound := structProperties(service, component, bindingType)
+		if !propertiesBound {
+			return Schema{}, false
+		}
+
 		schema = Schema{
 			Type:       "object",
-			Properties: make(map[string]Schema),
+			Properties: properties,
 		}
+
+		embeddedProperties := make([]Schema, 0)
 		for _, field := range component.StructFields {
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
@@ -159,24 +249,6 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 						Ref: componentRef,
 					})
 				}
-
-				continue
-			}
-
-			fieldBinding := field.StructFieldBindingTags[bindingType]
-			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
-			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
-			}
-			if fieldBinding == (astTraversal.BindingTag{}) {
-				fieldBinding = fieldNoBinding
-			}
-
-			if !fieldBinding.NotShown {
-				fieldSchema, fieldBound := componentToSchema(service, field, bindingType)
-				if fieldBound {
-					schema.Properties[fieldBinding.Name] = fieldSchema
-				}
 			}
 		}
 
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 66521b2..a6b6d87 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -272,7 +272,8 @@ func Generate(filePath string) astra.ServiceFunction {
 
 		s.Log.Debug().Msg("Adding components")
 		for _, component := range s.Components {
-			for _, bindingType := range astTraversal.BindingTags {
+			bindingTypes, _ := componentBindings(component)
+			for _, bindingType := range bindingTypes {
 				schema, bound := componentToSchema(s, component, bindingType)
 				if !bound {
 					continue
-- 
2.43.0


From 494712e34f7dcb3761be6ca29a49c4dfd9d1bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 11/63] fix: spread bound header and path parameters and
 embedded structs, and list parameters once

---
 outputs/openapi/generate.go | 55 +++++++++++++++++++++++--------------
 outputs/openapi/schema.go   | 49 +++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index a6b6d87..83a2d8b 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -57,12 +57,24 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, pathParam := range endpoint.PathParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", pathParam.Name).Msg("Adding endpointPath parameter")
+				if pathParam.IsBound {
+					// A bound struct refines the parameters of the path
+					properties := boundProperties(s, pathParam.Field, astTraversal.URIBindingTag)
+					for i, parameter := range operation.Parameters {
+						if property, ok := properties[parameter.Name]; ok {
+							operation.Parameters[i].Schema = property
+						}
+					}
+
+					continue
+				}
+
 				schema, bound := mapParamToSchema(s, astTraversal.URIBindingTag, pathParam)
 				if !bound {
 					continue
 				}
 
-				operation.Parameters = append(operation.Parameters, Parameter{
+				operation.Parameters = addParameter(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
 					Required: pathParam.IsRequired,
@@ -72,6 +84,19 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, requestHeader := range endpoint.RequestHeaders {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", requestHeader.Name).Msg("Adding request header")
+				if requestHeader.IsBound {
+					for propertyName, propertySchema := range boundProperties(s, requestHeader.Field, astTraversal.HeaderBindingTag) {
+						operation.Parameters = addParameter(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				schema, bound := mapParamToSchema(s, astTraversal.HeaderBindingTag, requestHeader)
 				if !bound {
 					continue
@@ -84,29 +109,14 @@ func Generate(filePath string) astra.ServiceFunction {
 					Schema:   schema,
 				}
 
-				operation.Parameters = append(operation.Parameters, parameter)
+				operation.Parameters = addParameter(operation.Parameters, parameter)
 			}
 
 			for _, queryParam := range endpoint.QueryParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", queryParam.Name).Msg("Adding query parameter")
-				schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
-				if !bound {
-					continue
-				}
-
 				// OpenAPI spec requires the use of a name, so bound parameters must be spread
 				if queryParam.IsBound {
-					field, found := findComponentByPackageAndType(s.Components, queryParam.Field.Package, queryParam.Field.Type)
-					if !found {
-						continue
-					}
-
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range boundProperties(s, queryParam.Field, astTraversal.FormBindingTag) {
 						style, explode := getQueryParamStyle(propertySchema)
 
 						parameter := Parameter{
@@ -118,9 +128,14 @@ func Generate(filePath string) astra.ServiceFunction {
 							Schema:   propertySchema,
 						}
 
-						operation.Parameters = append(operation.Parameters, parameter)
+						operation.Parameters = addParameter(operation.Parameters, parameter)
 					}
 				} else {
+					schema, bound := mapParamToSchema(s, astTraversal.FormBindingTag, queryParam)
+					if !bound {
+						continue
+					}
+
 					style, explode := getQueryParamStyle(schema)
 
 					parameter := Parameter{
@@ -132,7 +147,7 @@ func Generate(filePath string) astra.ServiceFunction {
 						Schema:   schema,
 					}
 
-					operation.Parameters = append(operation.Parameters, parameter)
+					operation.Parameters = addParameter(operation.Parameters, parameter)
 				}
 			}
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index d262fd6..b315bfe 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,7 @@
 package openapi
 
 import (
+	"maps"
 	"reflect"
 
 	"github.com/ls6-events/astra"
@@ -181,3 +182,51 @@ func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName st
 
 	return astra.Field{}, false
 }
+
+// addParameter adds a parameter to an operation, which can only have one of the same name and location.
+func addParameter(parameters []Parameter, parameter Parameter) []Parameter {
+	for _, existing := range parameters {
+		if existing.Name == parameter.Name && existing.In == parameter.In {
+			return parameters
+		}
+	}
+
+	return append(parameters, parameter)
+}
+
+// boundProperties returns the schemas of the properties that a bound struct has for a binding, including those of embedded structs.
+func boundProperties(service *astra.Service, field astra.Field, bindingType astTraversal.BindingTagType, embeddedIn ...astra.Field) map[string]Schema {
+	properties := make(map[string]Schema)
+
+	for _, outer := range embeddedIn {
+		if outer.Package == field.Package && outer.Type == field.Type {
+			return properties
+		}
+	}
+
+	component := field
+	if field.Type != "struct" {
+		var found bool
+		component, found = findComponentByPackageAndType(service.Components, field.Package, field.Type)
+		if !found {
+			return properties
+		}
+	}
+
+	for _, structField := range component.StructFields {
+		if structField.IsEmbedded {
+			for name, property := range boundProperties(service, structField, bindingType, append(embeddedIn, field)...) {
+				if _, ok := properties[name]; !ok {
+					properties[name] = property
+				}
+			}
+		}
+	}
+
+	own, bound := structProperties(service, component, bindingType)
+	if bound {
+		maps.Copy(properties, own)
+	}
+
+	return properties
+}
-- 
2.43.0


From 8812511acaacfde45cc8ca3a6d1d8add9a2799c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:00 +0000
Subject: [PATCH 12/63] fix: order composed schemas and parameters
 deterministically

---
 outputs/openapi/components.go | 17 +++++++++++++++--
 outputs/openapi/generate.go   |  2 +-
 outputs/openapi/schema.go     |  3 ++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index d5923a4..dc88f4c 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -190,12 +190,24 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// sortedFieldNames returns the names of the fields in a fixed order, so that the same fields always give the same output.
+func sortedFieldNames(fields map[string]astra.Field) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+
+	return names
+}
+
 // structProperties returns the schemas of the struct's own properties for a binding, without those of embedded structs.
 // Fields that are only tagged for other bindings aren't part of it, the struct is unbound if that leaves none of its fields.
 func structProperties(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (properties map[string]Schema, bound bool) {
 	properties = make(map[string]Schema)
 	bound = len(component.StructFields) == 0
-	for _, field := range component.StructFields {
+	for _, fieldName := range sortedFieldNames(component.StructFields) {
+		field := component.StructFields[fieldName]
 		if field.IsEmbedded {
 			bound = true
 			continue
@@ -239,7 +251,8 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		embeddedProperties := make([]Schema, 0)
-		for _, field := range component.StructFields {
+		for _, fieldName := range sortedFieldNames(component.StructFields) {
+			field := component.StructFields[fieldName]
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 83a2d8b..f3603f5 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -247,7 +247,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			}
 
 			// Sort parameters by name
-			sort.Slice(operation.Parameters, func(i, j int) bool {
+			sort.SliceStable(operation.Parameters, func(i, j int) bool {
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index b315bfe..2a5edd5 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -213,7 +213,8 @@ func boundProperties(service *astra.Service, field astra.Field, bindingType astT
 		}
 	}
 
-	for _, structField := range component.StructFields {
+	for _, fieldName := range sortedFieldNames(component.StructFields) {
+		structField := component.StructFields[fieldName]
 		if structField.IsEmbedded {
 			for name, property := range boundProperties(service, structField, bindingType, append(embeddedIn, field)...) {
 				if _, ok := properties[name]; !ok {
-- 
2.43.0


From 379a3db99211e1a6688df907726e334607ff757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:55 +0000
Subject: [PATCH 13/63] fix: keep the names of packages that end like a binding
 type apart

---
 outputs/openapi/components.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index dc88f4c..688faf7 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -13,15 +13,13 @@ var collisionSafeNames = make(map[string]string)
 
 // collisionSafeKey creates a key for the collisionSafeNames map.
 func collisionSafeKey(bindingType astTraversal.BindingTagType, name, pkg string) string {
-	var keyComponents []string
-
+	key := pkg + "." + name
 	if bindingType != astTraversal.NoBindingTag {
-		keyComponents = []string{pkg, string(bindingType), name}
-	} else {
-		keyComponents = []string{pkg, name}
+		// Neither packages nor names contain a "#", whereas packages can end like a binding type.
+		key += "#" + string(bindingType)
 	}
 
-	return strings.Join(keyComponents, ".")
+	return key
 }
 
 // getPackageName gets the package name from the package path (i.e. github.com/ls6-events/astra -> astra).
-- 
2.43.0


From e0f849e1362a4dce143d39f32f1fe7374da5de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 14/63] fix: keep the names of packages apart when one is named
 like another's binding

---
 outputs/openapi/components.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 688faf7..8c9dd39 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -85,7 +85,7 @@ func makePackagePrefixes(components []astra.Field) map[string]string {
 				packagePrefixes[packagePath] = strings.Join(parts[len(parts)-partCount:], ".")
 			} else {
 				// Even the whole path isn't enough, as its parts can contain dots themselves.
-				packagePrefixes[packagePath] = strings.NewReplacer("_", "_u", "/", "_s").Replace(packagePath)
+				packagePrefixes[packagePath] = strings.NewReplacer("_", "_u", "/", "_s", ".", "_d").Replace(packagePath)
 			}
 		}
 
-- 
2.43.0


From c8fc6f66146e786df6e57a60591d127c49bba9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 15/63] fix: keep the fields of anonymous structs in types
 without binding tags

---
 outputs/openapi/components.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 8c9dd39..7fc3647 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -215,6 +215,15 @@ func structProperties(service *astra.Service, component astra.Field, bindingType
 		if fieldBinding == (astTraversal.BindingTag{}) {
 			fieldBinding = field.StructFieldBindingTags[astTraversal.NoBindingTag]
 		}
+		if fieldBinding == (astTraversal.BindingTag{}) && bindingType == astTraversal.NoBindingTag {
+			// Nothing asks for a specific binding, so any of the field's bindings will do, preferably JSON.
+			for _, anyBindingType := range append([]astTraversal.BindingTagType{astTraversal.JSONBindingTag}, astTraversal.BindingTags...) {
+				fieldBinding = field.StructFieldBindingTags[anyBindingType]
+				if fieldBinding != (astTraversal.BindingTag{}) {
+					break
+				}
+			}
+		}
 		if fieldBinding == (astTraversal.BindingTag{}) {
 			continue
 		}
-- 
2.43.0


From 6e30dc960b47f143e22aa8bd3729acc65ee9ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 16/63] fix: start temporary output directories afresh

---
 dir.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 3f5870f..e93b181 100644
--- a/dir.go
+++ b/dir.go
@@ -34,7 +34,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// A leftover of a failed run must not end up in the output.
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.MkdirAll(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 492ba854c7b568435995e642b78249a687fe7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:23 +0000
Subject: [PATCH 17/63] fix: refuse output directories that hold the working
 directory

---
 dir.go    | 17 ++++++++++++++++-
 errors.go |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index e93b181..081ffdc 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -52,7 +54,20 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// Replacing a directory that holds the temporary one would delete it, and possibly the whole project.
+	absoluteSource, err := filepath.Abs(sourcePath)
+	if err != nil {
+		return err
+	}
+	absoluteDestination, err := filepath.Abs(destinationPath)
+	if err != nil {
+		return err
+	}
+	if strings.HasPrefix(filepath.ToSlash(absoluteSource)+"/", strings.TrimSuffix(filepath.ToSlash(absoluteDestination), "/")+"/") {
+		return ErrOutputDirectoryPathInvalid
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
diff --git a/errors.go b/errors.go
index ebd6e65..46f6dc4 100644
--- a/errors.go
+++ b/errors.go
@@ -12,4 +12,5 @@ var (
 	ErrOutputModeNotFound          = errors.New("output mode not found")
 	ErrOutputFilePathRequired      = errors.New("output file path is required")
 	ErrOutputDirectoryPathRequired = errors.New("output directory path is required")
+	ErrOutputDirectoryPathInvalid  = errors.New("output directory path holds the working directory")
 )
-- 
2.43.0


From d273c2583651781201a7972c5a4c07016a16410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 18/63] fix: convert each path parameter of an Azure Functions
 route once

---
 outputs/azureFunctions/convertRoute.go | 29 +++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..0859efe 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,23 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
-
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
+	// Only the parameters of the path itself are replaced, not what looks like one in a replacement.
+	return utils.MapPathParams(route.Path, func(param string) string {
+		for _, pathParam := range route.PathParams {
+			if pathParam.Name != param[1:] || pathParam.IsRequired != (param[0] == ':') {
+				continue
 			}
 
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
+			azureType, ok := acceptedTypeMap[pathParam.Field.Type]
+			if !ok {
+				break
+			}
+			if pathParam.IsRequired {
+				return "{" + pathParam.Name + ":" + azureType + "}"
 			}
+			return "{" + pathParam.Name + ":" + azureType + "?}"
 		}
-	}
 
-	return routeString
+		return param
+	})
 }
-- 
2.43.0


From d20bd042a746895f1e7cc9bc4e4d9261673b4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 19/63] fix: give routes that share a handler Azure functions
 of their own

---
 outputs/azureFunctions/generate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/outputs/azureFunctions/generate.go b/outputs/azureFunctions/generate.go
index 024eb1c..7b51e7f 100644
--- a/outputs/azureFunctions/generate.go
+++ b/outputs/azureFunctions/generate.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"os"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -34,10 +35,21 @@ func Generate(directoryPath string) astra.ServiceFunction {
 			return err
 		}
 
+		usedNames := make(map[string]bool)
 		for _, route := range s.Routes {
 			splitHandler := strings.Split(route.Handler, ".")
 			funcName := splitHandler[len(splitHandler)-1]
 
+			// Every route is a function of its own, also where routes share a handler.
+			for uniqueName, i := funcName, 2; ; i++ {
+				if !usedNames[uniqueName] {
+					funcName = uniqueName
+					break
+				}
+				uniqueName = funcName + "_" + strconv.Itoa(i)
+			}
+			usedNames[funcName] = true
+
 			functionDirectoryPath := path.Join(tempOutputDirectoryPath, funcName)
 			filePath := path.Join(functionDirectoryPath, outputFile)
 
-- 
2.43.0


From 452f6df47b9e015cfedb418e03749b389c543e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 20/63] fix: create the temporary main package without a prior
 setup

---
 mainPackage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..27bdac6 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -24,7 +24,7 @@ func (s *Service) setupTempMainPackage() error {
 			return err
 		}
 	}
-	err := os.Mkdir(newMainPkgPath, 0755)
+	err := os.MkdirAll(newMainPkgPath, 0755)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c632e9cda8154b17133c9491719205ca3cad20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 21/63] fix: rename only the package clause in the temporary
 main package

---
 mainPackage.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 27bdac6..590d494 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,6 +1,8 @@
 package astra
 
 import (
+	"go/parser"
+	"go/token"
 	"os"
 	"path"
 	"strings"
@@ -42,7 +44,7 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			fileData = []byte(strings.ReplaceAll(string(fileData), "package main", "package "+mainPackageReplacement))
+			fileData = replaceMainPackageName(fileData)
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
 			err = os.WriteFile(newFilePath, fileData, 0644)
@@ -67,6 +69,21 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// replaceMainPackageName renames the main package in the package clause of a Go file, and nothing else of it.
+func replaceMainPackageName(fileData []byte) []byte {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", fileData, parser.PackageClauseOnly)
+	if err != nil || (file.Name.Name != "main" && file.Name.Name != "main_test") {
+		return fileData
+	}
+
+	offset := fset.Position(file.Name.Pos()).Offset
+
+	newFileData := append([]byte{}, fileData[:offset]...)
+	newFileData = append(newFileData, mainPackageReplacement...)
+	return append(newFileData, fileData[offset+len("main"):]...)
+}
+
 // cleanupTempMainPackage removes the temporary main package.
 func (s *Service) cleanupTempMainPackage() error {
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
-- 
2.43.0


From 5dc476e6934850fee60e10e474afa15611752d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 22/63] fix: read the module path of go.mod wherever its
 directive is

---
 mainPackage.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 590d494..167dcff 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -5,6 +5,7 @@ import (
 	"go/token"
 	"os"
 	"path"
+	"strconv"
 	"strings"
 )
 
@@ -51,14 +52,14 @@ func (s *Service) setupTempMainPackage() error {
 			if err != nil {
 				return err
 			}
-		} else if strings.HasSuffix(file.Name(), ".mod") {
+		} else if file.Name() == "go.mod" {
 			fileName := path.Join(s.WorkDir, file.Name())
 			fileData, err := os.ReadFile(fileName)
 			if err != nil {
 				return err
 			}
 
-			pkgName = strings.Replace(strings.Split(string(fileData), "\n")[0], "module ", "", 1)
+			pkgName = modulePath(string(fileData))
 		}
 	}
 
@@ -69,6 +70,25 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// modulePath returns the module path that the module directive of a go.mod file gives.
+func modulePath(mod string) string {
+	for _, line := range strings.Split(mod, "\n") {
+		line, _, _ = strings.Cut(line, "//")
+
+		fields := strings.Fields(line)
+		if len(fields) < 2 || fields[0] != "module" {
+			continue
+		}
+
+		if unquoted, err := strconv.Unquote(fields[1]); err == nil {
+			return unquoted
+		}
+		return fields[1]
+	}
+
+	return ""
+}
+
 // replaceMainPackageName renames the main package in the package clause of a Go file, and nothing else of it.
 func replaceMainPackageName(fileData []byte) []byte {
 	fset := token.NewFileSet()
-- 
2.43.0


From 3bb48aeedf4ca45f0f8d4b08f8cca7cbf677737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 23/63] fix: clean the headers of routes as well

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From 7844454d3ea9446928564ebba2e8c644d844bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 24/63] fix: restore Azure Functions outputs from the cache

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From 8aab3b2542f097c62348c9a919f4bd511ba2e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:26 +0000
Subject: [PATCH 25/63] fix: restore custom type mappings from the cache

---
 cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..989a3cf 100644
--- a/cache.go
+++ b/cache.go
@@ -109,6 +109,11 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+	s.CustomTypeMapping = service.CustomTypeMapping
+	if s.CustomTypeMapping == nil {
+		s.CustomTypeMapping = make(map[string]TypeFormat)
+	}
+	s.fullTypeMapping = nil
 	return nil
 }
 
-- 
2.43.0


From 830ada7bf20be79de27b1d8dcfb6730d2297c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 26/63] fix: leave functions out of YAML caches

---
 input.go  | 4 ++--
 output.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..742c4a9 100644
--- a/input.go
+++ b/input.go
@@ -3,8 +3,8 @@ package astra
 // Input is the input for the generator.
 type Input struct {
 	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..8719e89 100644
--- a/output.go
+++ b/output.go
@@ -4,7 +4,7 @@ package astra
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
 	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
 	Configuration IOConfiguration `json:"configuration"`
 }
 
-- 
2.43.0


From de75ef7bd41315fa86bd7bf8f62dead994931bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:48 +0000
Subject: [PATCH 27/63] fix: write outputs to the same path on every generation

---
 outputs/json/generate.go    | 3 +--
 outputs/openapi/generate.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..1f9f690 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -39,8 +39,7 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 
 		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		err = os.WriteFile(path.Join(s.WorkDir, filePath), file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index f3603f5..dbe1ca4 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -350,8 +350,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		err = os.WriteFile(path.Join(s.WorkDir, filePath), file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
-- 
2.43.0


From d5c345ffab8a2422784be482d33e60e09dea4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 28/63] fix: leave the configuration alone when generating

---
 outputs/openapi/generate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index dbe1ca4..d957d85 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -308,8 +308,9 @@ func Generate(filePath string) astra.ServiceFunction {
 		}
 		s.Log.Debug().Msg("Added components")
 
-		if s.Config.Description == "" {
-			s.Config.Description = "Generated by astra"
+		description := s.Config.Description
+		if description == "" {
+			description = "Generated by astra"
 		}
 
 		s.Log.Debug().Msg("Generating OpenAPI schema file")
@@ -317,7 +318,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			OpenAPI: "3.0.0",
 			Info: Info{
 				Title:       s.Config.Title,
-				Description: s.Config.Description,
+				Description: description,
 				Contact:     Contact(s.Config.Contact),
 				License:     License(s.Config.License),
 				Version:     s.Config.Version,
-- 
2.43.0


From 5397c19aea83f45ba63f4a0d08a7672cb8efad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 29/63] fix: never delete a directory in place of the cache
 file

---
 cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 989a3cf..e5e56d0 100644
--- a/cache.go
+++ b/cache.go
@@ -132,7 +132,8 @@ func (s *Service) ClearCache() error {
 		return err
 	}
 
-	if err := os.RemoveAll(cachePath); err != nil {
+	// Not RemoveAll: a cache path that names a directory must not delete what is in it.
+	if err := os.Remove(cachePath); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 67bf1c6476036780a92ae9e78a16deaa2e2c6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 30/63] fix: skip directories when copying the main package

---
 mainPackage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mainPackage.go b/mainPackage.go
index 167dcff..b5894a6 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -38,6 +38,10 @@ func (s *Service) setupTempMainPackage() error {
 	}
 
 	for _, file := range files {
+		if file.IsDir() {
+			continue
+		}
+
 		if strings.HasSuffix(file.Name(), ".go") {
 			fileName := path.Join(s.WorkDir, file.Name())
 			fileData, err := os.ReadFile(fileName)
-- 
2.43.0


From 8daf345f55f292bfe7967269dc62558386d98581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 31/63] fix: evaluate constant arguments as Go does

---
 astTraversal/declaration.go |  8 +++++
 astTraversal/expression.go  | 58 +++++++++++++++++++++++++++----------
 astTraversal/packageNode.go | 47 ++++++++++++++++++++++++++++++
 3 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..7a5973a 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if len(n.Values) != len(n.Names) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +45,10 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		if len(n.Rhs) != len(n.Lhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..9ec076f 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,9 +3,10 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -45,12 +46,40 @@ func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Ty
 	return nil, nil
 }
 
+// constantValue is the value the type checker gives to the expression, if it is constant.
+func (e *ExpressionTraverser) constantValue() (string, bool) {
+	if e.File == nil || e.File.Package == nil || e.File.Package.Package == nil || e.File.Package.Package.TypesInfo == nil {
+		return "", false
+	}
+
+	value := e.File.Package.Package.TypesInfo.Types[e.Node].Value
+	if value == nil {
+		return "", false
+	}
+
+	if value.Kind() == constant.String {
+		return constant.StringVal(value), true
+	}
+	if intValue := constant.ToInt(value); intValue.Kind() == constant.Int {
+		return intValue.ExactString(), true
+	}
+	return value.ExactString(), true
+}
+
 func (e *ExpressionTraverser) Value() (string, error) {
+	if value, ok := e.constantValue(); ok {
+		return value, nil
+	}
+
 	switch n := e.Node.(type) {
+	case *ast.ParenExpr:
+		inner := *e
+		inner.Node = n.X
+		return inner.Value()
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			return strconv.Unquote(value)
 		}
 
 		return value, nil
@@ -60,11 +89,7 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
-		}
-
-		node, err := e.File.Package.ASTAtPos(obj.Pos())
+		node, err := e.File.Package.DeclarationAtPos(obj.Pos())
 		if err != nil {
 			return "", err
 		}
@@ -84,8 +109,15 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", errors.New("astNode is not of type ast.Expr")
 		}
 
-		return e.Traverser.Expression(exprNode).Value()
+		return (&ExpressionTraverser{Traverser: e.Traverser, Node: exprNode, File: e.File}).Value()
 	case *ast.SelectorExpr:
+		// Only what another package declares is known, not what a field holds.
+		if ident, ok := n.X.(*ast.Ident); !ok {
+			return "", errors.New("value not retrievable")
+		} else if _, ok := e.File.Package.Package.TypesInfo.Uses[ident].(*types.PkgName); !ok {
+			return "", errors.New("value not retrievable")
+		}
+
 		obj, err := e.File.Package.FindObjectForIdent(n.Sel)
 		if err != nil {
 			return "", err
@@ -97,16 +129,12 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		obj, err = pkg.FindObjectForIdentFuzzy(n.Sel)
+		obj, err = pkg.FindObjectForName(n.Sel.Name)
 		if err != nil {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
-		}
-
-		node, err := pkg.ASTAtPos(obj.Pos())
+		node, err := pkg.DeclarationAtPos(obj.Pos())
 		if err != nil {
 			return "", err
 		}
@@ -126,7 +154,7 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", errors.New("astNode is not of type ast.Expr")
 		}
 
-		return e.Traverser.Expression(exprNode).Value()
+		return (&ExpressionTraverser{Traverser: e.Traverser, Node: exprNode, File: &FileNode{Package: pkg}}).Value()
 	}
 
 	return "", errors.New("value not retrievable")
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..b822b7b 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -198,6 +198,53 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 	return nil, fmt.Errorf("node at %s not found in package %s", node, p.Path())
 }
 
+// DeclarationAtPos finds the declaration of the variable, constant or field whose name is at the given position.
+func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, error) {
+	if p.Package == nil {
+		return nil, fmt.Errorf("package %s not populated", p.Path())
+	}
+
+	declares := func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.ValueSpec:
+			for _, name := range n.Names {
+				if name.Pos() == pos {
+					return true
+				}
+			}
+		case *ast.AssignStmt:
+			for _, name := range n.Lhs {
+				if name.Pos() == pos {
+					return true
+				}
+			}
+		case *ast.Field:
+			for _, name := range n.Names {
+				if name.Pos() == pos {
+					return true
+				}
+			}
+		}
+		return false
+	}
+
+	var result ast.Node
+	for _, f := range p.Package.Syntax {
+		ast.Inspect(f, func(n ast.Node) bool {
+			if result == nil && declares(n) {
+				result = n
+			}
+			return result == nil
+		})
+	}
+
+	if result == nil {
+		return nil, fmt.Errorf("declaration at %s not found in package %s", p.Package.Fset.Position(pos), p.Path())
+	}
+
+	return result, nil
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
-- 
2.43.0


From ff6b6a200bd51d2d6eb46c8eca87b43627b530fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 32/63] fix: find the types of all kinds of expressions

---
 astTraversal/expression.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 9ec076f..bbbc4b3 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -165,6 +165,10 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.UnaryExpr:
+		// Receiving from a channel gives another type than the channel's.
+		if n.Op == token.ARROW {
+			return e.checkedType()
+		}
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.Ident:
 		obj, err := e.File.Package.FindObjectForIdentFuzzy(n)
@@ -183,10 +187,18 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 	case *ast.MapType:
 		return e.File.Package.FindTypeForExpr(n)
 	case *ast.CompositeLit:
+		if n.Type == nil {
+			return e.checkedType()
+		}
 		return e.Traverser.Expression(n.Type).Type()
 	case *ast.BasicLit:
 		return e.File.Package.FindTypeForExpr(n)
 	case *ast.CallExpr:
+		// Also conversions, and calls of function values and of generic functions
+		if exprType, err := e.checkedType(); err == nil {
+			return exprType, nil
+		}
+
 		result, err := e.BuiltInFunctions(n)
 		if err != nil {
 			return nil, err
@@ -204,5 +216,26 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 		return callExpr.ReturnType(e.ReturnNum)
 	}
 
-	return nil, errors.New("unsupported expression type")
+	return e.checkedType()
+}
+
+// checkedType returns the type that the type checker gives to the expression.
+func (e *ExpressionTraverser) checkedType() (types.Type, error) {
+	if e.File == nil || e.File.Package == nil {
+		return nil, errors.New("unsupported expression type")
+	}
+
+	exprType, err := e.File.Package.FindTypeForExpr(e.Node)
+	if err != nil {
+		return nil, err
+	}
+
+	if tuple, ok := exprType.(*types.Tuple); ok {
+		if tuple.Len() <= e.ReturnNum {
+			return nil, ErrInvalidIndex
+		}
+		return tuple.At(e.ReturnNum).Type(), nil
+	}
+
+	return exprType, nil
 }
-- 
2.43.0


From 822875d0e37bb161cdc861679d5a8890935bc8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 33/63] fix: describe untyped constants and nil

---
 astTraversal/type.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..03a2149 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -34,8 +34,18 @@ func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
 	switch n := t.Node.(type) {
 	case *types.Basic:
+		// An untyped constant gets its default type.
+		if defaultType, ok := types.Default(n).(*types.Basic); ok {
+			n = defaultType
+		}
+
+		typeName := n.Name()
+		if n.Kind() == types.UntypedNil {
+			typeName = "nil"
+		}
+
 		result = Result{
-			Type:    n.Name(),
+			Type:    typeName,
 			Package: t.Package,
 		}
 
-- 
2.43.0


From 354cf0e8d0dc49f611ad9f46cacf98e8a92bfe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 34/63] fix: describe recursive types

---
 astTraversal/traverser.go |  2 ++
 astTraversal/type.go      | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..d95e11b 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -14,6 +14,8 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	// addingComponents holds the named types whose components are being added
+	addingComponents map[string]bool
 }
 
 func New(workDir string) *BaseTraverser {
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 03a2149..c82ebdf 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -146,7 +146,15 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
+			// A type that refers to itself is already being added.
+			key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
+			if t.Traverser.shouldAddComponent && !t.Traverser.addingComponents[key] {
+				if t.Traverser.addingComponents == nil {
+					t.Traverser.addingComponents = make(map[string]bool)
+				}
+				t.Traverser.addingComponents[key] = true
+				defer delete(t.Traverser.addingComponents, key)
+
 				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
 				if err != nil {
 					return Result{}, err
-- 
2.43.0


From bc1d1560841f2efff02e45b355d9c8dface8f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 35/63] fix: describe embedded structs of the same package

---
 astTraversal/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index c82ebdf..bf9fd4d 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -251,7 +251,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
-						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
+						t.Traverser.Log.Debug().Str("field", name).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
 				}
-- 
2.43.0


From 20e65cbd536077d43eb1325da9a42c1796ca876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 36/63] fix: describe aliases as the types they stand for

---
 astTraversal/type.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index bf9fd4d..ff08adb 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -25,6 +25,18 @@ func (t *BaseTraverser) Type(node types.Type, packageNode *PackageNode) *TypeTra
 	}
 }
 
+// unalias returns the type that an alias stands for.
+// Aliases are types of their own since Go 1.23.
+func unalias(node types.Type) types.Type {
+	for {
+		alias, ok := node.(interface{ Rhs() types.Type })
+		if !ok {
+			return node
+		}
+		node = alias.Rhs()
+	}
+}
+
 func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 	t.name = name
 	return t
@@ -32,7 +44,8 @@ func (t *TypeTraverser) SetName(name string) *TypeTraverser {
 
 func (t *TypeTraverser) Result() (Result, error) {
 	var result Result
-	switch n := t.Node.(type) {
+	// An alias is the type it stands for.
+	switch n := unalias(t.Node).(type) {
 	case *types.Basic:
 		// An untyped constant gets its default type.
 		if defaultType, ok := types.Default(n).(*types.Basic); ok {
-- 
2.43.0


From fefd5c5504d30c7c796633409bbb1aac7276d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 37/63] fix: accept unnamed and aliased context parameters

---
 astTraversal/function.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..029ad7a 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -58,14 +58,20 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 		}
 
 		if isPointer {
-			if named, ok := argType.(*types.Pointer); ok {
+			if named, ok := unalias(argType).(*types.Pointer); ok {
 				argType = named.Elem()
 			} else {
 				continue
 			}
 		}
+		argType = unalias(argType)
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		// An unnamed argument cannot be used.
+		if len(arg.Names) == 0 {
+			continue
+		}
+
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From 211338047f01b46f17adfa10e0716bfa238d7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 38/63] fix: describe structs with fields that cannot be
 described

---
 astTraversal/type.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index ff08adb..c494578 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"go/token"
 	"go/types"
@@ -249,6 +250,10 @@ func (t *TypeTraverser) Result() (Result, error) {
 			}
 
 			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
+			if errors.Is(err, ErrInvalidNodeType) {
+				// Functions, channels and the like cannot be described, but the other fields can.
+				continue
+			}
 			if err != nil {
 				return Result{}, err
 			}
-- 
2.43.0


From c34e9f303d108c509bf4464d498db265f3bf6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 39/63] fix: find the documentation of fields where they are
 declared

---
 astTraversal/packageNode.go | 21 +++++++++++++++++++++
 astTraversal/type.go        | 19 ++++++++++++-------
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index b822b7b..1f1dd40 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -224,6 +224,10 @@ func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 			}
+			if len(n.Names) == 0 {
+				name := embeddedName(n.Type)
+				return name != nil && name.Pos() == pos
+			}
 		}
 		return false
 	}
@@ -245,6 +249,23 @@ func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, error) {
 	return result, nil
 }
 
+// embeddedName returns the name of an embedded field of the given type.
+func embeddedName(expr ast.Expr) *ast.Ident {
+	switch n := expr.(type) {
+	case *ast.Ident:
+		return n
+	case *ast.StarExpr:
+		return embeddedName(n.X)
+	case *ast.SelectorExpr:
+		return n.Sel
+	case *ast.IndexExpr:
+		return embeddedName(n.X)
+	case *ast.IndexListExpr:
+		return embeddedName(n.X)
+	}
+	return nil
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
diff --git a/astTraversal/type.go b/astTraversal/type.go
index c494578..4ee1530 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -169,7 +169,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 				t.Traverser.addingComponents[key] = true
 				defer delete(t.Traverser.addingComponents, key)
 
-				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+				// The package's own view of the type has the positions of its fields.
+				underlying := n.Underlying()
+				if own := pkg.Package.Types.Scope().Lookup(n.Obj().Name()); own != nil && n.TypeArgs() == nil && n.Obj().Parent() == n.Obj().Pkg().Scope() {
+					underlying = own.Type().Underlying()
+				}
+
+				namedUnderlyingResult, err := t.Traverser.Type(underlying, pkg).SetName(n.Obj().Name()).Result()
 				if err != nil {
 					return Result{}, err
 				}
@@ -258,15 +264,14 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if structFieldResult.Package != nil {
-				_, err = t.Traverser.Packages.Get(structFieldResult.Package)
+			// The field is documented where the struct is declared.
+			if t.Package != nil {
+				_, err = t.Traverser.Packages.Get(t.Package)
 				if err != nil {
 					return Result{}, err
 				}
 
-				pos := f.Pos()
-
-				node, err := structFieldResult.Package.ASTAtPos(pos)
+				node, err := t.Package.DeclarationAtPos(f.Pos())
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
 						t.Traverser.Log.Debug().Str("field", name).Msg("Found doc for field")
@@ -306,7 +311,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 }
 
 func (t *TypeTraverser) Doc() (string, error) {
-	if named, ok := t.Node.(*types.Named); ok {
+	if named, ok := unalias(t.Node).(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
 
 		_, err := t.Traverser.Packages.Get(pkg)
-- 
2.43.0


From a40b70bf0f21fdb115bf74d9126e85964bf56a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:17 +0000
Subject: [PATCH 40/63] fix: list all constants of an enumerated type with
 their values

---
 astTraversal/packageNode.go | 67 ++++++++++++++++++++++++++++++
 astTraversal/type.go        | 81 +------------------------------------
 2 files changed, 68 insertions(+), 80 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1f1dd40..9c4ab47 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
 
@@ -249,6 +250,72 @@ func (p *PackageNode) DeclarationAtPos(pos token.Pos) (ast.Node, error) {
 	return result, nil
 }
 
+// enumValues returns the values of the package's constants of the named type, in the order they are declared.
+func (p *PackageNode) enumValues(typeName string) []any {
+	typeObj := p.Package.Types.Scope().Lookup(typeName)
+	if typeObj == nil {
+		return nil
+	}
+
+	var values []any
+	for _, file := range p.Package.Syntax {
+		for _, decl := range file.Decls {
+			genDecl, ok := decl.(*ast.GenDecl)
+			if !ok || genDecl.Tok != token.CONST {
+				continue
+			}
+
+			for _, spec := range genDecl.Specs {
+				valueSpec, ok := spec.(*ast.ValueSpec)
+				if !ok {
+					continue
+				}
+
+				for _, name := range valueSpec.Names {
+					constObj, ok := p.Package.TypesInfo.Defs[name].(*types.Const)
+					if !ok || name.Name == "_" || constObj.Type() != typeObj.Type() {
+						continue
+					}
+
+					if value, ok := enumValue(constObj); ok {
+						values = append(values, value)
+					}
+				}
+			}
+		}
+	}
+
+	return values
+}
+
+// enumValue returns the value of a constant as a value of the basic type it is made of.
+func enumValue(constObj *types.Const) (any, bool) {
+	basic, ok := constObj.Type().Underlying().(*types.Basic)
+	if !ok {
+		return nil, false
+	}
+
+	switch {
+	case basic.Info()&types.IsString != 0:
+		return constant.StringVal(constObj.Val()), true
+	case basic.Info()&types.IsBoolean != 0:
+		return constant.BoolVal(constObj.Val()), true
+	case basic.Info()&types.IsUnsigned != 0:
+		return constant.Uint64Val(constant.ToInt(constObj.Val()))
+	case basic.Info()&types.IsInteger != 0:
+		value, ok := constant.Int64Val(constant.ToInt(constObj.Val()))
+		if basic.Kind() == types.Int {
+			return int(value), ok
+		}
+		return value, ok
+	case basic.Info()&types.IsFloat != 0:
+		value, _ := constant.Float64Val(constObj.Val())
+		return value, true
+	}
+
+	return nil, false
+}
+
 // embeddedName returns the name of an embedded field of the given type.
 func embeddedName(expr ast.Expr) *ast.Ident {
 	switch n := expr.(type) {
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 4ee1530..3491273 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -3,10 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
-	"go/token"
 	"go/types"
-	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -72,83 +69,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			// Iterate through the package's AST to find the enum values
-			// We start by iterating over every file in the package
-			for _, file := range t.Package.Package.Syntax {
-				// Then we iterate over every declaration in the file
-				for _, decl := range file.Decls {
-					// If the declaration is a GenDecl, it's a const/var declaration
-					if genDecl, ok := decl.(*ast.GenDecl); ok {
-						// If the declaration isn't a const, we skip it (we're only looking for constants)
-						if genDecl.Tok != token.CONST {
-							continue
-						}
-
-						// If the declaration is a const, we iterate over every spec
-						for _, spec := range genDecl.Specs {
-							// If the spec is a ValueSpec, we check if the type is the same as the named type
-							if valueSpec, ok := spec.(*ast.ValueSpec); ok {
-								// If the type is the same as the named type, we iterate over every value
-								if valueSpec.Type != nil {
-									// We check this by comparing the name of the type to the name of the named type
-									// It must be an Ident, otherwise it's not a named type, or it's from another package, not the one we're looking for
-									if ident, ok := valueSpec.Type.(*ast.Ident); ok {
-										if ident.Name == t.name {
-											// We iterate over every value in the value spec
-											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
-												}
-											}
-										}
-									}
-								}
-							}
-						}
-					}
-				}
-			}
+			result.EnumValues = t.Package.enumValues(t.name)
 		}
 
 	case *types.Named:
-- 
2.43.0


From c1c0b8ec4ec6c659d6caf5d864b7ee0fbbe42e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 41/63] fix: substitute errors in fields, and drop the enum
 values of substituted types

---
 substituteTypes.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..d743d20 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -21,7 +21,17 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 		component.Type = substituteTypes[qualifiedName]
 
 		component.StructFields = nil
+		component.EnumValues = nil
 		component.SliceType = ""
 		component.MapValueType = ""
 	}
+
+	// References to predeclared types, such as error, have no component to refer to.
+	if component.Package == "" && component.Name == "" {
+		for _, reference := range []*string{&component.Type, &component.SliceType, &component.ArrayType, &component.MapValueType} {
+			if substitute, ok := substituteTypes[*reference]; ok {
+				*reference = substitute
+			}
+		}
+	}
 }
-- 
2.43.0


From fe846263e936b7243aa2fc18df378b4ff508a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:12 +0000
Subject: [PATCH 42/63] fix: follow the context into methods and packages
 whatever their import name

---
 astTraversal/callExpression.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/astTraversal/callExpression.go b/astTraversal/callExpression.go
index fb7dc06..a334498 100644
--- a/astTraversal/callExpression.go
+++ b/astTraversal/callExpression.go
@@ -25,6 +25,11 @@ func (t *BaseTraverser) CallExpression(node ast.Node) (*CallExpressionTraverser,
 }
 
 func (c *CallExpressionTraverser) Function() (*FunctionTraverser, error) {
+	// The type checker knows which function or method is called, however it is imported.
+	if funcType, err := c.Type(); err == nil && funcType.Pkg() != nil {
+		return c.declaredFunction(funcType)
+	}
+
 	decl, err := c.Traverser.FindDeclarationForNode(c.Node.Fun)
 	if err != nil {
 		return nil, err
@@ -38,6 +43,34 @@ func (c *CallExpressionTraverser) Function() (*FunctionTraverser, error) {
 	return function, nil
 }
 
+// declaredFunction finds the declaration of a function or method.
+func (c *CallExpressionTraverser) declaredFunction(funcType *types.Func) (*FunctionTraverser, error) {
+	pkg := c.File.Package
+	if funcType.Pkg() != pkg.Package.Types {
+		pkg = c.Traverser.Packages.FindOrAdd(funcType.Pkg().Path())
+		if _, err := c.Traverser.Packages.Get(pkg); err != nil {
+			return nil, err
+		}
+	}
+
+	for _, file := range pkg.Files {
+		for _, decl := range file.AST.Decls {
+			funcDecl, ok := decl.(*ast.FuncDecl)
+			if !ok || funcDecl.Name.Name != funcType.Name() {
+				continue
+			}
+
+			declType, ok := pkg.Package.TypesInfo.Defs[funcDecl.Name].(*types.Func)
+			if ok && declType.FullName() == funcType.Origin().FullName() {
+				c.Traverser.activeFile = file
+				return c.Traverser.Function(funcDecl)
+			}
+		}
+	}
+
+	return nil, ErrInvalidNodeType
+}
+
 func (c *CallExpressionTraverser) ArgIndex(argName string) (int, bool) {
 	for i, arg := range c.Node.Args {
 		ident, ok := arg.(*ast.Ident)
-- 
2.43.0


From a0140873e43a729144a491b132386cc4c9bd3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 43/63] fix: keep analysing a handler after calls that cannot
 be analysed

---
 inputs/gin/parseFunction.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..3364e25 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -24,8 +25,9 @@ const (
 // The level parameter is used to determine the depth of recursion.
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
+// The callers are the bodies of the functions that led here.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.BlockStmt) error {
 	traverser := funcTraverser.Traverser
 
 	traverser.SetActiveFile(activeFile)
@@ -46,12 +48,31 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		return errors.New("failed to find context variable name")
 	}
 
-	var err error
+	// Functions implemented elsewhere have no body, and recursive ones have been parsed already
+	body := funcTraverser.Node.Body
+	if body == nil || slices.Contains(callers, body) {
+		return nil
+	}
+	callers = append(slices.Clone(callers), body)
+
 	// Loop over every statement in the function
-	ast.Inspect(funcTraverser.Node.Body, func(n ast.Node) bool {
+	ast.Inspect(body, func(n ast.Node) (descend bool) {
 		if n == nil {
 			return true
 		}
+
+		// A call that cannot be analysed must not affect the others
+		var err error
+		route := currRoute
+		defer func() {
+			traverser.SetActiveFile(activeFile)
+			if err != nil {
+				traverser.Log.Debug().Err(err).Msg("failed to analyse call")
+				currRoute = route
+				descend = true
+			}
+		}()
+
 		// If a function is called
 		var callExpr *astTraversal.CallExpressionTraverser
 		callExpr, err = traverser.CallExpression(n)
@@ -95,13 +116,11 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, callers...)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
@@ -696,10 +715,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		return true
 	})
 
-	if err != nil {
-		return err
-	}
-
 	if len(currRoute.ReturnTypes) == 0 && level == 0 {
 		return errors.New("return type not found")
 	}
-- 
2.43.0


From abcf1ceea9011900bf4c076c5600ae28f461a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 44/63] fix: keep the route that a custom function returns

---
 inputs/gin/parseFunction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 3364e25..eb2e7d9 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -97,7 +97,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 			if newRoute != nil {
-				currRoute = newRoute
+				// The caller has the current route as well
+				*currRoute = *newRoute
 				shouldBreak = true
 				break
 			}
-- 
2.43.0


From 1ec5e8b1b8cd499c8ccc364b8cb7043d59032507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 45/63] fix: accept calls whose arguments are another call's
 results

---
 contextFuncBuilder.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..d0b7dfc 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -1,6 +1,10 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"go/ast"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 type ContextFuncBuilder struct {
 	Route           *Route
@@ -21,6 +25,15 @@ func (c *ContextFuncBuilder) getCurrentParamIndex() int {
 	return len(c.paramOperations)
 }
 
+// arg returns an argument of the call, if the call has it on its own.
+func (c *ContextFuncBuilder) arg(index int) (ast.Expr, error) {
+	if index >= len(c.Traverser.Node.Args) {
+		return nil, astTraversal.ErrInvalidIndex
+	}
+
+	return c.Traverser.Node.Args[index], nil
+}
+
 func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
 		//nolint:nilnil // This is intentional
@@ -33,7 +46,12 @@ func (c *ContextFuncBuilder) Ignored() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		return c.Traverser.Traverser.ExtractStatusCode(c.Traverser.Node.Args[currIndex])
+		arg, err := c.arg(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		return c.Traverser.Traverser.ExtractStatusCode(arg)
 	})
 
 	return c
@@ -42,7 +60,12 @@ func (c *ContextFuncBuilder) StatusCode() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		exprType, err := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex]).Type()
+		arg, err := c.arg(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		exprType, err := c.Traverser.Traverser.Expression(arg).Type()
 		if err != nil {
 			return nil, err
 		}
@@ -56,7 +79,12 @@ func (c *ContextFuncBuilder) ExpressionResult() *ContextFuncBuilder {
 func (c *ContextFuncBuilder) Value() *ContextFuncBuilder {
 	currIndex := c.getCurrentParamIndex()
 	c.paramOperations = append(c.paramOperations, func() (any, error) {
-		expr := c.Traverser.Traverser.Expression(c.Traverser.Node.Args[currIndex])
+		arg, err := c.arg(currIndex)
+		if err != nil {
+			return nil, err
+		}
+
+		expr := c.Traverser.Traverser.Expression(arg)
 
 		return expr.Value()
 	})
-- 
2.43.0


From 11f3ffd9e3013c6cfa57097cfe5e2cb045ec6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 46/63] fix: find inline handlers in methods, variables and
 inlined functions

---
 inputs/gin/parseRoute.go | 67 ++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..34dec05 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -76,58 +76,51 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		log.Debug().Msg("No path params found")
 	}
 
+	// The runtime names inline functions after the functions they are in, which are not always those that declare them
+	isInline := len(handler.HandlerParts) > 1
+
 	ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
 		if n == nil {
 			return true
 		}
 
-		funcDecl, ok := n.(*ast.FuncDecl)
-
-		if ok && funcDecl.Name.Name == funcName {
-			log.Debug().Str("funcName", funcName).Msg("Found handler function")
-
-			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
-
-			if baseRoute.LineNo != startPos.Line {
-				// This means that the function is set inline in the route definition
-				log.Debug().Str("funcName", funcName).Msg("Function is inline")
+		funcLit, ok := n.(*ast.FuncLit)
 
-				ast.Inspect(funcDecl, func(n ast.Node) bool {
-					if n == nil {
-						return true
-					}
+		if ok && isInline {
+			inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
 
-					funcLit, ok := n.(*ast.FuncLit)
+			if baseRoute.LineNo == inlineStartPos.Line {
+				log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
 
-					if ok {
-						inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
+				function, err := traverser.Function(funcLit)
+				if err != nil {
+					log.Error().Err(err).Msg("Failed to get function")
+					return false
+				}
 
-						if baseRoute.LineNo == inlineStartPos.Line {
-							log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
+				// A function that makes the handler may be on the same line
+				if function.FindArgumentNameByType(GinContextType, GinPackagePath, GinContextIsPointer) == "" {
+					return true
+				}
 
-							function, err := traverser.Function(funcLit)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to get function")
-								return false
-							}
+				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+				if err != nil {
+					log.Error().Err(err).Msg("Failed to parse inline function")
+					return false
+				}
 
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to parse inline function")
-								return false
-							}
+				log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
 
-							log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
+				return false
+			}
 
-							return false
-						}
-					}
+			return true
+		}
 
-					return true
-				})
+		funcDecl, ok := n.(*ast.FuncDecl)
 
-				return false
-			}
+		if ok && !isInline && funcDecl.Recv == nil && funcDecl.Name.Name == funcName {
+			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
 			// If the function is not inline, we can just parse it normally
 			function, err := traverser.Function(funcDecl)
-- 
2.43.0


From 5ba202aa5ace3681959c232b09eb00a801caa826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 47/63] fix: find generic handlers

---
 utils/splitHandlerPath.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 75378c5..29b5ebd 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -11,6 +11,9 @@ type HandlerPath struct {
 }
 
 func SplitHandlerPath(handlerPath string) HandlerPath {
+	// The runtime does not name the type arguments of generic functions
+	handlerPath = strings.ReplaceAll(handlerPath, "[...]", "")
+
 	// Create path parts by splitting on slashes
 	pathParts := strings.Split(handlerPath, "/")
 
-- 
2.43.0


From d236114eb60ab739307b2ecd35d8fe6f7bfc3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 48/63] fix: record the content type of data responses

---
 inputs/gin/parseFunction.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index eb2e7d9..41d45de 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -254,9 +254,16 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 							return nil, errors.New("failed to parse result")
 						}
 
+						// The content type is only known if it is constant
+						contentType, err := traverser.Expression(callExpr.Args()[1]).Value()
+						if err != nil {
+							contentType = ""
+						}
+
 						returnType := astra.ReturnType{
-							StatusCode: statusCode,
-							Field:      astra.ParseResultToField(result),
+							StatusCode:  statusCode,
+							ContentType: contentType,
+							Field:       astra.ParseResultToField(result),
 						}
 
 						route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, returnType)
-- 
2.43.0


From 2321890df64b19cf96954cd59713b98591ec879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:21 +0000
Subject: [PATCH 49/63] fix: record data responses

---
 inputs/gin/parseFunction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 41d45de..bcdec43 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -249,7 +249,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
+						result, ok := params[2].(astTraversal.Result)
 						if !ok {
 							return nil, errors.New("failed to parse result")
 						}
-- 
2.43.0


From e92e83847286f78ec0b9f1e61d6f1c2273162373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 50/63] fix: follow the context into explicitly instantiated
 functions

---
 astTraversal/callExpression.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/astTraversal/callExpression.go b/astTraversal/callExpression.go
index a334498..c492fbc 100644
--- a/astTraversal/callExpression.go
+++ b/astTraversal/callExpression.go
@@ -95,9 +95,18 @@ func (c *CallExpressionTraverser) Type() (*types.Func, error) {
 		return nil, ErrInvalidNodeType
 	}
 
+	// Generic functions may be called with their type arguments
+	fun := c.Node.Fun
+	switch instance := fun.(type) {
+	case *ast.IndexExpr:
+		fun = instance.X
+	case *ast.IndexListExpr:
+		fun = instance.X
+	}
+
 	var obj types.Object
 	var err error
-	switch nodeFun := c.Node.Fun.(type) {
+	switch nodeFun := fun.(type) {
 	case *ast.Ident:
 		obj, err = c.File.Package.FindObjectForIdent(nodeFun)
 	case *ast.SelectorExpr:
-- 
2.43.0


From 542c3ca2d88e11edc3695f8c88980bcb4c5c45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:18 +0000
Subject: [PATCH 51/63] fix: parse each function once per route

---
 inputs/gin/parseFunction.go | 16 +++++++++-------
 inputs/gin/parseRoute.go    |  4 ++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bcdec43..bfcc8c1 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
-	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -25,9 +24,9 @@ const (
 // The level parameter is used to determine the depth of recursion.
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
-// The callers are the bodies of the functions that led here.
+// The parsed map holds the bodies of the functions parsed for the route so far, it is nil at the first level.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.BlockStmt) error {
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, parsed map[*ast.BlockStmt]bool) error {
 	traverser := funcTraverser.Traverser
 
 	traverser.SetActiveFile(activeFile)
@@ -48,12 +47,15 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		return errors.New("failed to find context variable name")
 	}
 
-	// Functions implemented elsewhere have no body, and recursive ones have been parsed already
+	// Functions implemented elsewhere have no body, and recursive or shared ones have been parsed already
 	body := funcTraverser.Node.Body
-	if body == nil || slices.Contains(callers, body) {
+	if body == nil || parsed[body] {
 		return nil
 	}
-	callers = append(slices.Clone(callers), body)
+	if parsed == nil {
+		parsed = make(map[*ast.BlockStmt]bool)
+	}
+	parsed[body] = true
 
 	// Loop over every statement in the function
 	ast.Inspect(body, func(n ast.Node) (descend bool) {
@@ -117,7 +119,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, callers...)
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, parsed)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 34dec05..721fd5a 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -103,7 +103,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 					return true
 				}
 
-				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, nil)
 				if err != nil {
 					log.Error().Err(err).Msg("Failed to parse inline function")
 					return false
@@ -132,7 +132,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 			// And define the function name as the operation ID
 			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, nil)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to parse function")
 				return false
-- 
2.43.0


From 6b6735302ad69e1e71ac594556cb3fbd396fcec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:30 +0000
Subject: [PATCH 52/63] fix: keep named types of other packages' elements in
 their own package

---
 astTraversal/result.go        |  4 ++++
 astTraversal/type.go          |  5 +++++
 clean.go                      |  3 +++
 outputs/openapi/components.go | 17 +++++++++++++----
 substituteTypes.go            |  2 +-
 types.go                      |  7 +++++--
 utils.go                      |  3 +++
 7 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..23d7bd9 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -9,6 +9,10 @@ type Result struct {
 	// It's used as the package of a Slice, Array or Map Value
 	Package *PackageNode
 
+	// ReferencePackage is the package of the type that a types.Named type refers to, if it's not its own package
+	// (e.g. of the elements for a type Foo []bar.Baz)
+	ReferencePackage *PackageNode
+
 	// Name is the name of the result if it's a types.Named type
 	Name string
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3491273..2d350dc 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -222,6 +222,11 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 	if t.name != "" {
 		result.Name = t.name
+
+		// A named type belongs to its own package, whatever the package of the elements it has.
+		if result.Package != t.Package {
+			result.ReferencePackage, result.Package = result.Package, t.Package
+		}
 	}
 
 	if result.Type != "" {
diff --git a/clean.go b/clean.go
index df8374d..7587f44 100644
--- a/clean.go
+++ b/clean.go
@@ -56,6 +56,9 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 	if f.Package == mainPkg {
 		f.Package = "main"
 	}
+	if f.ReferencePackage == mainPkg {
+		f.ReferencePackage = "main"
+	}
 	if f.MapKeyPackage == mainPkg {
 		f.MapKeyPackage = "main"
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 7fc3647..0060262 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -188,6 +188,15 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// referencePackage returns the package of the types that the component refers to.
+func referencePackage(component astra.Field) string {
+	if component.ReferencePackage != "" {
+		return component.ReferencePackage
+	}
+
+	return component.Package
+}
+
 // sortedFieldNames returns the names of the fields in a fixed order, so that the same fields always give the same output.
 func sortedFieldNames(fields map[string]astra.Field) []string {
 	names := make([]string, 0, len(fields))
@@ -287,7 +296,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, referencePackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -303,7 +312,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, referencePackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -320,7 +329,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, referencePackage(component))
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
@@ -333,7 +342,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 	} else {
 		schema = mapPredefinedTypeFormat(component.Type)
 		if schema.Type == "" && !astra.IsAcceptedType(component.Type) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.Type, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.Type, referencePackage(component))
 			if componentBound {
 				schema = Schema{
 					Ref: componentRef,
diff --git a/substituteTypes.go b/substituteTypes.go
index d743d20..4882e55 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -27,7 +27,7 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 	}
 
 	// References to predeclared types, such as error, have no component to refer to.
-	if component.Package == "" && component.Name == "" {
+	if component.ReferencePackage == "" && (component.Package == "" || component.Name != "") {
 		for _, reference := range []*string{&component.Type, &component.SliceType, &component.ArrayType, &component.MapValueType} {
 			if substitute, ok := substituteTypes[*reference]; ok {
 				*reference = substitute
diff --git a/types.go b/types.go
index 48deddd..a7c3569 100644
--- a/types.go
+++ b/types.go
@@ -69,8 +69,11 @@ type Processable struct {
 // If the field is a struct, it contains the fields of the struct.
 type Field struct {
 	Package string `json:"package,omitempty" yaml:"package,omitempty"`
-	Type    string `json:"type,omitempty" yaml:"type,omitempty"`
-	Name    string `json:"name,omitempty" yaml:"name,omitempty"`
+	// ReferencePackage is the package of the type that a named type refers to, if it's not its own package.
+	ReferencePackage string `json:"referencePackage,omitempty" yaml:"referencePackage,omitempty"`
+
+	Type string `json:"type,omitempty" yaml:"type,omitempty"`
+	Name string `json:"name,omitempty" yaml:"name,omitempty"`
 
 	EnumValues []any `json:"enumValues,omitempty" yaml:"enumValues,omitempty"`
 
diff --git a/utils.go b/utils.go
index adaaa9b..652e55f 100644
--- a/utils.go
+++ b/utils.go
@@ -39,6 +39,9 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.Package = result.Package.Path()
 	}
 
+	// If a named type refers to a type of another package, we need to get the package path of that.
+	field.ReferencePackage = result.ReferencePackage.Path()
+
 	// If the map key type is populated and not a primitive type, we need to get the package path for the map key.
 	if result.MapKeyType != "" && !IsAcceptedType(result.MapKeyType) {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
-- 
2.43.0


From a31485b08adfe5c9af36c15830359a4322718997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 53/63] fix: record named pointer types

---
 astTraversal/type.go |  7 ++++++-
 utils.go             | 11 +++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 2d350dc..991b8e7 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -118,7 +118,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 			Package: pkg,
 		}
 	case *types.Pointer:
-		return t.Traverser.Type(n.Elem(), t.Package).Result()
+		elemResult, err := t.Traverser.Type(n.Elem(), t.Package).Result()
+		if err != nil {
+			return Result{}, err
+		}
+
+		result = elemResult
 	case *types.Slice:
 		sliceElemResult, err := t.Traverser.Type(n.Elem(), t.Package).Result()
 		if err != nil {
diff --git a/utils.go b/utils.go
index 652e55f..674d689 100644
--- a/utils.go
+++ b/utils.go
@@ -28,19 +28,22 @@ func ParseResultToField(result astTraversal.Result) Field {
 	}
 
 	// If the type is not a primitive type, we need to get the package path.
-	// If the type is named, it is referring to a type.
 	// If the slice type is populated and not a primitive type, we need to get the package path for the slice.
 	// If the array type is populated and not a primitive type, we need to get the package path for the array.
 	// If the map value type is populated and not a primitive type, we need to get the package path for the map value.
-	if !IsAcceptedType(result.Type) || result.Name != "" ||
+	// If the type is named, it is referring to a type.
+	refersToType := !IsAcceptedType(result.Type) ||
 		(result.SliceType != "" && !IsAcceptedType(result.SliceType)) ||
 		(result.ArrayType != "" && !IsAcceptedType(result.ArrayType)) ||
-		(result.MapValueType != "" && !IsAcceptedType(result.MapValueType)) {
+		(result.MapValueType != "" && !IsAcceptedType(result.MapValueType))
+	if refersToType || result.Name != "" {
 		field.Package = result.Package.Path()
 	}
 
 	// If a named type refers to a type of another package, we need to get the package path of that.
-	field.ReferencePackage = result.ReferencePackage.Path()
+	if refersToType {
+		field.ReferencePackage = result.ReferencePackage.Path()
+	}
 
 	// If the map key type is populated and not a primitive type, we need to get the package path for the map key.
 	if result.MapKeyType != "" && !IsAcceptedType(result.MapKeyType) {
-- 
2.43.0


From b0c6aff4d23d36b0a5ebade1bb1dbfdb0d0174bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 54/63] fix: keep the constants and documentation of a
 package's type off local types of that name

---
 astTraversal/packageNode.go |  2 +-
 astTraversal/type.go        | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 9c4ab47..a05c977 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -273,7 +273,7 @@ func (p *PackageNode) enumValues(typeName string) []any {
 
 				for _, name := range valueSpec.Names {
 					constObj, ok := p.Package.TypesInfo.Defs[name].(*types.Const)
-					if !ok || name.Name == "_" || constObj.Type() != typeObj.Type() {
+					if !ok || name.Name == "_" || unalias(constObj.Type()) != typeObj.Type() {
 						continue
 					}
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 991b8e7..e9d2ad1 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -92,7 +92,8 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 				// The package's own view of the type has the positions of its fields.
 				underlying := n.Underlying()
-				if own := pkg.Package.Types.Scope().Lookup(n.Obj().Name()); own != nil && n.TypeArgs() == nil && n.Obj().Parent() == n.Obj().Pkg().Scope() {
+				isLocal := n.Obj().Parent() != n.Obj().Pkg().Scope()
+				if own := pkg.Package.Types.Scope().Lookup(n.Obj().Name()); own != nil && n.TypeArgs() == nil && !isLocal {
 					underlying = own.Type().Underlying()
 				}
 
@@ -101,9 +102,14 @@ func (t *TypeTraverser) Result() (Result, error) {
 					return Result{}, err
 				}
 
-				namedUnderlyingResult.Doc, err = t.Doc()
-				if err != nil {
-					return Result{}, err
+				// The package's constants and documentation are those of the type of that name in the package, not in a function.
+				if isLocal {
+					namedUnderlyingResult.EnumValues = nil
+				} else {
+					namedUnderlyingResult.Doc, err = t.Doc()
+					if err != nil {
+						return Result{}, err
+					}
 				}
 
 				err = t.Traverser.addComponent(namedUnderlyingResult)
-- 
2.43.0


From ebff9b45dd4c8a2df5603b81b9d3452e1c226f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 55/63] fix: keep routes whose path or method a custom function
 changes

---
 inputs/gin/parseRoutes.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseRoutes.go b/inputs/gin/parseRoutes.go
index 7c028d2..5c33fe8 100644
--- a/inputs/gin/parseRoutes.go
+++ b/inputs/gin/parseRoutes.go
@@ -11,7 +11,7 @@ import (
 func ParseRoutes() astra.ServiceFunction {
 	return func(s *astra.Service) error {
 		s.Log.Debug().Msg("Populating routes from gin routes")
-		for _, route := range s.Routes {
+		for i, route := range s.Routes {
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Msg("Populating route")
 
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Str("file", route.File).Int("line", route.LineNo).Msg("Parsing route")
@@ -21,7 +21,8 @@ func ParseRoutes() astra.ServiceFunction {
 				return err
 			}
 
-			s.ReplaceRoute(route)
+			// Custom functions may return a route of another path or method in its place
+			s.Routes[i] = route
 		}
 		s.Log.Debug().Msg("Populated service with gin routes")
 
-- 
2.43.0


From fec6dfad9c6e56dfe039808e96e3589e8aa9fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:46 +0000
Subject: [PATCH 56/63] fix: give every custom function a context function
 builder of its own

---
 inputs/gin/parseFunction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bfcc8c1..64ee203 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -85,8 +85,6 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			return true
 		}
 
-		funcBuilder := astra.NewContextFuncBuilder(currRoute, callExpr)
-
 		// Loop over every custom function
 		// If the custom function returns a route, use that route instead of the current route
 		// And break out of this AST traversal for this call expression
@@ -94,7 +92,7 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		var shouldBreak bool
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
-			newRoute, err = customFunc(ctxName, funcBuilder)
+			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
 			if err != nil {
 				return false
 			}
@@ -143,6 +141,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			}
 
 			if signature.Recv() != nil && signature.Recv().Type().String() == signaturePath {
+				funcBuilder := astra.NewContextFuncBuilder(currRoute, callExpr)
+
 				switch funcType.Name() {
 				case "JSON":
 					currRoute, err = funcBuilder.StatusCode().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
-- 
2.43.0


From c054b2a24b66c421aa70ebd632f8af3a0d351318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:32 +0000
Subject: [PATCH 57/63] fix: a parameter of a named type refers to that type's
 schema

---
 outputs/openapi/schema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 2a5edd5..fe5bfd0 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -40,6 +40,15 @@ func mapParamToSchema(service *astra.Service, bindingType astTraversal.BindingTa
 			AdditionalProperties: &additionalProperties,
 		}, true
 	} else {
+		if !astra.IsAcceptedType(param.Field.Type) {
+			componentRef, bound := makeComponentRef(bindingType, param.Field.Type, param.Field.Package)
+			if bound {
+				return Schema{
+					Ref: componentRef,
+				}, true
+			}
+		}
+
 		return mapPredefinedTypeFormat(param.Field.Type), true
 	}
 }
-- 
2.43.0


From 81a756d3953dfcbd7dbb80b8aba80d547670f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:04 +0000
Subject: [PATCH 58/63] fix: a route is not recorded once more by every further
 gin input

---
 inputs/gin/parseRoute.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 721fd5a..bb990c4 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -69,6 +69,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// Every input parses all routes, what was found before must not be recorded again
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
 	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
-- 
2.43.0


From 470f03958a37247d73b6f6ff331bdd8395e5ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:00 +0000
Subject: [PATCH 59/63] fix: document an array's length as the number of its
 items

maxLength only applies to strings.
---
 outputs/openapi/components.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 0060262..db1d38e 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -321,9 +321,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
-- 
2.43.0


From cd9daac9bfb5225cc06deaf01ff9d0698042cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:47 +0000
Subject: [PATCH 60/63] fix: document handlers that are method values

The runtime has no file for the functions that wrap the methods, so creating the routes failed.
---
 inputs/gin/createRoute.go | 14 ++++++++---
 inputs/gin/parseRoute.go  | 52 +++++++++++++++++++++++++++++++++++++--
 utils/splitHandlerPath.go | 15 +++++++++++
 3 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 5d553f4..d2640a9 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -9,6 +9,9 @@ import (
 	"github.com/gin-gonic/gin"
 )
 
+// autogeneratedFile is what the runtime has for the file of the functions that wrap method values.
+const autogeneratedFile = "<autogenerated>"
+
 // createRoute creates a route from a gin RouteInfo.
 // It will only create the route and refer to the handler function by name, file and line number.
 // The route will be populated later by parseRoute.
@@ -21,10 +24,13 @@ func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) er
 		return err
 	}
 
-	relativePath, err := filepath.Rel(cwd, file)
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get relative path")
-		return err
+	relativePath := file
+	if file != autogeneratedFile {
+		relativePath, err = filepath.Rel(cwd, file)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get relative path")
+			return err
+		}
 	}
 
 	baseRoute := astra.Route{
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index bb990c4..2a20948 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -42,6 +42,10 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	}
 
 	funcName := handler.FuncName()
+	receiverName, methodName, isMethodValue := handler.MethodValue()
+	if isMethodValue {
+		funcName = methodName
+	}
 
 	pkgNode := traverser.Packages.AddPackage(pkgPath)
 
@@ -56,6 +60,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	}
 
 	for _, file := range pkgNode.Files {
+		// The function that wraps a method is in no file
+		if isMethodValue && findMethod(file.AST, receiverName, methodName) != nil {
+			log.Debug().Str("fileName", file.FileName).Msg("Found file")
+			traverser.SetActiveFile(file)
+			break
+		}
+
 		if path.Base(file.FileName) == path.Base(baseRoute.File) {
 			log.Debug().Str("fileName", file.FileName).Msg("Found file")
 			traverser.SetActiveFile(file)
@@ -84,7 +95,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	}
 
 	// The runtime names inline functions after the functions they are in, which are not always those that declare them
-	isInline := len(handler.HandlerParts) > 1
+	isInline := len(handler.HandlerParts) > 1 && !isMethodValue
 
 	ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
 		if n == nil {
@@ -126,7 +137,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 		funcDecl, ok := n.(*ast.FuncDecl)
 
-		if ok && !isInline && funcDecl.Recv == nil && funcDecl.Name.Name == funcName {
+		if ok && !isInline && funcDecl.Name.Name == funcName && receiverTypeName(funcDecl) == receiverName {
 			log.Debug().Str("funcName", funcName).Msg("Found handler function")
 
 			// If the function is not inline, we can just parse it normally
@@ -159,3 +170,40 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 	return nil
 }
+
+// findMethod finds the declaration of a method in a file.
+func findMethod(file *ast.File, receiverName string, methodName string) *ast.FuncDecl {
+	for _, decl := range file.Decls {
+		funcDecl, ok := decl.(*ast.FuncDecl)
+		if ok && funcDecl.Recv != nil && funcDecl.Name.Name == methodName && receiverTypeName(funcDecl) == receiverName {
+			return funcDecl
+		}
+	}
+
+	return nil
+}
+
+// receiverTypeName is the name of the type a method is declared for, it is empty for functions.
+func receiverTypeName(funcDecl *ast.FuncDecl) string {
+	if funcDecl.Recv == nil || len(funcDecl.Recv.List) == 0 {
+		return ""
+	}
+
+	receiverType := funcDecl.Recv.List[0].Type
+	for {
+		switch t := receiverType.(type) {
+		case *ast.ParenExpr:
+			receiverType = t.X
+		case *ast.StarExpr:
+			receiverType = t.X
+		case *ast.IndexExpr:
+			receiverType = t.X
+		case *ast.IndexListExpr:
+			receiverType = t.X
+		case *ast.Ident:
+			return t.Name
+		default:
+			return ""
+		}
+	}
+}
diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 29b5ebd..74648c9 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -55,3 +55,18 @@ func (h HandlerPath) Handler() string {
 func (h HandlerPath) FuncName() string {
 	return h.HandlerParts[0]
 }
+
+// MethodValue returns the receiver's type and the method of a handler that is a method value.
+// The runtime names the function that wraps the method after it.
+func (h HandlerPath) MethodValue() (receiver string, method string, ok bool) {
+	if len(h.HandlerParts) != 2 {
+		return "", "", false
+	}
+
+	method, ok = strings.CutSuffix(h.HandlerParts[1], "-fm")
+	if !ok {
+		return "", "", false
+	}
+
+	return strings.TrimSuffix(strings.TrimPrefix(h.HandlerParts[0], "(*"), ")"), method, true
+}
-- 
2.43.0


From f42859922481e6733bf661fc454548cd5b44bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 61/63] fix: describe embedded structs of unexported types

Their exported fields are promoted, and encoded and bound like those of other embedded structs.
---
 astTraversal/type.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index e9d2ad1..bb83bef 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -175,9 +175,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 		fields := make(map[string]Result)
 		for i := 0; i < n.NumFields(); i++ {
 			f := n.Field(i)
-			name := f.Id()
+			name := f.Name()
 			isExported := f.Exported()
 			isEmbedded := f.Embedded()
+			if isEmbedded && isStruct(f.Type()) {
+				// The exported fields of an unexported struct are promoted.
+				isExported = true
+			}
 
 			var bindingTag BindingTagMap
 			var validationTags ValidationTagMap
@@ -247,6 +251,16 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// isStruct checks whether a type is a struct or a pointer to one.
+func isStruct(t types.Type) bool {
+	if pointer, ok := unalias(t).(*types.Pointer); ok {
+		t = pointer.Elem()
+	}
+	_, ok := t.Underlying().(*types.Struct)
+
+	return ok
+}
+
 func (t *TypeTraverser) Doc() (string, error) {
 	if named, ok := unalias(t.Node).(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
-- 
2.43.0


From 3562319b53534e0b4c63126d47602f5b5ce92930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:28 +0000
Subject: [PATCH 62/63] fix: treat embedded structs as their tags say

Like encoding/json and gin, a hidden one is left out, and one its JSON or YAML tag names is a field of that name.
---
 outputs/openapi/components.go | 39 +++++++++++++++++++++++++++++++----
 outputs/openapi/schema.go     |  2 +-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index db1d38e..a71d3c4 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -144,8 +144,17 @@ func componentBindings(component astra.Field) (bindingTypes []astTraversal.Bindi
 	}
 
 	// Fields that are tagged for some of the bindings only are missing from the others.
-	for _, field := range component.StructFields {
-		if _, ok := field.StructFieldBindingTags[astTraversal.NoBindingTag]; ok || field.IsEmbedded {
+	for fieldName, field := range component.StructFields {
+		if field.IsEmbedded {
+			for _, bindingType := range bindingTypes {
+				if isPromoted(fieldName, field, bindingType) != isPromoted(fieldName, field, bindingTypes[0]) {
+					uniqueBindings = true
+				}
+			}
+			continue
+		}
+
+		if _, ok := field.StructFieldBindingTags[astTraversal.NoBindingTag]; ok {
 			continue
 		}
 
@@ -208,6 +217,28 @@ func sortedFieldNames(fields map[string]astra.Field) []string {
 	return names
 }
 
+// isPromoted checks whether a binding promotes the fields of an embedded struct.
+// Tags can hide it, and its JSON or YAML tag can name it, which makes it a field like any other.
+func isPromoted(fieldName string, field astra.Field, bindingType astTraversal.BindingTagType) bool {
+	if !field.IsEmbedded {
+		return false
+	}
+
+	if bindingType == astTraversal.NoBindingTag {
+		bindingType = astTraversal.JSONBindingTag
+	}
+
+	fieldBinding, ok := field.StructFieldBindingTags[bindingType]
+	if !ok {
+		return true
+	}
+	if fieldBinding.NotShown {
+		return false
+	}
+
+	return fieldBinding.Name == fieldName || (bindingType != astTraversal.JSONBindingTag && bindingType != astTraversal.YAMLBindingTag)
+}
+
 // structProperties returns the schemas of the struct's own properties for a binding, without those of embedded structs.
 // Fields that are only tagged for other bindings aren't part of it, the struct is unbound if that leaves none of its fields.
 func structProperties(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (properties map[string]Schema, bound bool) {
@@ -215,7 +246,7 @@ func structProperties(service *astra.Service, component astra.Field, bindingType
 	bound = len(component.StructFields) == 0
 	for _, fieldName := range sortedFieldNames(component.StructFields) {
 		field := component.StructFields[fieldName]
-		if field.IsEmbedded {
+		if isPromoted(fieldName, field, bindingType) {
 			bound = true
 			continue
 		}
@@ -271,7 +302,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			field := component.StructFields[fieldName]
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
-			if field.IsEmbedded {
+			if isPromoted(fieldName, field, bindingType) {
 				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index fe5bfd0..14ea17a 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -224,7 +224,7 @@ func boundProperties(service *astra.Service, field astra.Field, bindingType astT
 
 	for _, fieldName := range sortedFieldNames(component.StructFields) {
 		structField := component.StructFields[fieldName]
-		if structField.IsEmbedded {
+		if isPromoted(fieldName, structField, bindingType) {
 			for name, property := range boundProperties(service, structField, bindingType, append(embeddedIn, field)...) {
 				if _, ok := properties[name]; !ok {
 					properties[name] = property
-- 
2.43.0


From 89f5e0739c24948b757496c74ebb255b9d3b8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:39 +0000
Subject: [PATCH 63/63] fix: treat embedded types that are no structs as fields

Nothing is promoted from them, encoding/json and gin use the names of their types.
---
 astTraversal/type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index bb83bef..ab93553 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -177,8 +177,9 @@ func (t *TypeTraverser) Result() (Result, error) {
 			f := n.Field(i)
 			name := f.Name()
 			isExported := f.Exported()
-			isEmbedded := f.Embedded()
-			if isEmbedded && isStruct(f.Type()) {
+			// Only the fields of structs are promoted, other embedded types are fields like any other.
+			isEmbedded := f.Embedded() && isStruct(f.Type())
+			if isEmbedded {
 				// The exported fields of an unexported struct are promoted.
 				isExported = true
 			}
-- 
2.43.0

