From d78d1ba978fc30b644c154274b1882ec1013c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 01/25] fix: write annotations, facets, examples and reset
 sections as plain mappings

Maps held by parsed documents (annotation values, facet definitions, named
examples) and maps recreated by the Unset methods kept the default ordered
mode, so they were written as !!omap sequences which are not valid RAML and
which the parser rejects.
---
 v0/gen/type-m/extended.tpl                   |  6 +++---
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 16 ++++++++--------
 v0/internal/raml/Library.go                  | 10 +++++-----
 v0/internal/raml/annotation.go               |  2 +-
 v0/internal/raml/in-components.go            |  2 +-
 v0/internal/raml/type-datatype-ext.go        |  2 +-
 v0/internal/raml/type-facet.go               |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  6 +++---
 v0/internal/raml/x-gen-type-array.go         |  6 +++---
 v0/internal/raml/x-gen-type-bool.go          |  6 +++---
 v0/internal/raml/x-gen-type-custom.go        |  6 +++---
 v0/internal/raml/x-gen-type-date-only.go     |  6 +++---
 v0/internal/raml/x-gen-type-datetime-only.go |  6 +++---
 v0/internal/raml/x-gen-type-datetime.go      |  6 +++---
 v0/internal/raml/x-gen-type-file.go          |  6 +++---
 v0/internal/raml/x-gen-type-integer.go       |  6 +++---
 v0/internal/raml/x-gen-type-number.go        |  6 +++---
 v0/internal/raml/x-gen-type-object.go        |  8 ++++----
 v0/internal/raml/x-gen-type-string.go        |  6 +++---
 v0/internal/raml/x-gen-type-time-only.go     |  6 +++---
 v0/internal/raml/x-gen-type-union.go         |  6 +++---
 22 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..b6f03bb 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -19,7 +19,7 @@ import (
 // Generated @ {{ .Time }}
 func New{{ .Name }}Type() *{{ .Name }}Type {
 	out := &{{.Name}}Type{
-		examples: raml.New{{.Name}}ExampleMap(0),
+		examples: raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false),
 	}
 
   out.examples.SerializeOrdered(false)
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..ebab3bd 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -157,7 +157,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -174,7 +174,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -191,7 +191,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -208,7 +208,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -225,7 +225,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -259,7 +259,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -290,7 +290,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -380,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..5d06f78 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -73,7 +73,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -90,7 +90,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -111,7 +111,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -128,7 +128,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -228,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..87963b0 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -28,7 +28,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..706f931 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 		required:       true,
 	}
 }
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..1b8f504 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewAnyType() *AnyType {
 	out := &AnyType{
-		examples: raml.NewAnyExampleMap(0),
+		examples: raml.NewAnyExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..d60a19a 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -15,7 +15,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewArrayType() *ArrayType {
 	out := &ArrayType{
-		examples: raml.NewArrayExampleMap(0),
+		examples: raml.NewArrayExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..aaec9b5 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewBoolType() *BoolType {
 	out := &BoolType{
-		examples: raml.NewBoolExampleMap(0),
+		examples: raml.NewBoolExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..1099055 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewCustomType() *CustomType {
 	out := &CustomType{
-		examples: raml.NewCustomExampleMap(0),
+		examples: raml.NewCustomExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..1fcca7e 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewDateOnlyType() *DateOnlyType {
 	out := &DateOnlyType{
-		examples: raml.NewDateOnlyExampleMap(0),
+		examples: raml.NewDateOnlyExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..39b872d 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewDatetimeOnlyType() *DatetimeOnlyType {
 	out := &DatetimeOnlyType{
-		examples: raml.NewDatetimeOnlyExampleMap(0),
+		examples: raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..ac1416e 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewDatetimeType() *DatetimeType {
 	out := &DatetimeType{
-		examples: raml.NewDatetimeExampleMap(0),
+		examples: raml.NewDatetimeExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..4c99bb2 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewFileType() *FileType {
 	out := &FileType{
-		examples: raml.NewFileExampleMap(0),
+		examples: raml.NewFileExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..c06068a 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewIntegerType() *IntegerType {
 	out := &IntegerType{
-		examples: raml.NewIntegerExampleMap(0),
+		examples: raml.NewIntegerExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..937d5c9 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewNumberType() *NumberType {
 	out := &NumberType{
-		examples: raml.NewNumberExampleMap(0),
+		examples: raml.NewNumberExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..9eb7064 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewObjectType() *ObjectType {
 	out := &ObjectType{
-		examples: raml.NewObjectExampleMap(0),
+		examples: raml.NewObjectExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..9c24fce 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewStringType() *StringType {
 	out := &StringType{
-		examples: raml.NewStringExampleMap(0),
+		examples: raml.NewStringExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..5e8109f 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewTimeOnlyType() *TimeOnlyType {
 	out := &TimeOnlyType{
-		examples: raml.NewTimeOnlyExampleMap(0),
+		examples: raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..9064d2d 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -16,7 +16,7 @@ import (
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewUnionType() *UnionType {
 	out := &UnionType{
-		examples: raml.NewUnionExampleMap(0),
+		examples: raml.NewUnionExampleMap(0).SerializeOrdered(false),
 	}
 
 	out.examples.SerializeOrdered(false)
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From b38ad59d51b80bd1a2e2634f89db2a39337e9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 02/25] fix: do not panic on empty mapping keys

Annotation and resource detection indexed the first byte of a key, which
panics when the key is the empty string.
---
 v0/gen/example-m.tpl                      | 3 ++-
 v0/internal/raml/APISpec.go               | 5 +++--
 v0/internal/raml/Library.go               | 3 ++-
 v0/internal/raml/in-components.go         | 4 +++-
 v0/internal/raml/x-gen-ex-any.go          | 3 ++-
 v0/internal/raml/x-gen-ex-array.go        | 3 ++-
 v0/internal/raml/x-gen-ex-bool.go         | 3 ++-
 v0/internal/raml/x-gen-ex-custom.go       | 3 ++-
 v0/internal/raml/x-gen-ex-dateonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetime.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 3 ++-
 v0/internal/raml/x-gen-ex-file.go         | 3 ++-
 v0/internal/raml/x-gen-ex-integer.go      | 3 ++-
 v0/internal/raml/x-gen-ex-number.go       | 3 ++-
 v0/internal/raml/x-gen-ex-object.go       | 3 ++-
 v0/internal/raml/x-gen-ex-string.go       | 3 ++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-union.go        | 3 ++-
 18 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..17e7721 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -9,6 +9,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // New{{.Name}}Example returns a new internal implementation of the
@@ -157,7 +158,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index ebab3bd..0832d54 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewApiSpec() *APISpec {
@@ -379,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +389,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if strings.HasPrefix(k.Value, "/") {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 5d06f78..f6c84cf 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewLibrary() *Library {
@@ -227,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 87963b0..6b94166 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -1,6 +1,8 @@
 package raml
 
 import (
+	"strings"
+
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
 )
@@ -24,7 +26,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if !strings.HasPrefix(k, "(") {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..734dad3 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewAnyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..1509c83 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewArrayExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..42ba79c 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewBoolExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..1bcb539 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewCustomExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..98abc6d 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDateOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..83b513e 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..c5069b1 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..f3c2ad8 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewFileExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..6ee6339 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIntegerExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..c8e7552 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewNumberExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..5aea9b9 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewObjectExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..3d5046c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewStringExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..50d76d0 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewTimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..337b802 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewUnionExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From 86ba7e8e88634bd6456dede0b872b28cb579106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 03/25] fix: write short form examples as their bare value

An example holding nothing but a value was written as a mapping with an empty
key ({"": value}), which neither RAML processors nor the parser accept.
---
 v0/gen/example-m.tpl                      | 7 +++++--
 v0/internal/raml/x-gen-ex-any.go          | 7 +++++--
 v0/internal/raml/x-gen-ex-array.go        | 7 +++++--
 v0/internal/raml/x-gen-ex-bool.go         | 7 +++++--
 v0/internal/raml/x-gen-ex-custom.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 7 +++++--
 v0/internal/raml/x-gen-ex-file.go         | 7 +++++--
 v0/internal/raml/x-gen-ex-integer.go      | 7 +++++--
 v0/internal/raml/x-gen-ex-number.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-object.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-string.go       | 7 +++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 7 +++++--
 v0/internal/raml/x-gen-ex-union.go        | 7 +++++--
 15 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 17e7721..6da8e2f 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -113,8 +113,10 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -188,7 +190,8 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 }
 
 func (e *{{.Name}}Example) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 734dad3..a8d2ee4 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -107,8 +107,10 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *AnyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 1509c83..1534fc0 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -107,8 +107,10 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ArrayExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 42ba79c..734e90c 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -107,8 +107,10 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *BoolExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1bcb539..f3c9cd1 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -107,8 +107,10 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *CustomExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 98abc6d..859a204 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -107,8 +107,10 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DateOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 83b513e..a6c6c49 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -107,8 +107,10 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index c5069b1..37f7273 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -107,8 +107,10 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index f3c2ad8..44b8708 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -107,8 +107,10 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *FileExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 6ee6339..52d4dd2 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -107,8 +107,10 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *IntegerExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index c8e7552..c111448 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -107,8 +107,10 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *NumberExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 5aea9b9..1e7f312 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -107,8 +107,10 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ObjectExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 3d5046c..7be1132 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -107,8 +107,10 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *StringExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 50d76d0..9bbd79e 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -107,8 +107,10 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *TimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 337b802..cec175e 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -107,8 +107,10 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if simple {
+		return xyml.ToYamlNode(e.value)
 	}
 	return out.ToYAML()
 }
@@ -182,7 +184,8 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *UnionExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-- 
2.43.0


From e8d14138e49f253c080d209eb3a31aa269d5a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 04/25] fix: keep untyped example values writable

The value of any, custom, file, object and union examples was stored as a
yaml.Node copy, which cannot be converted back to YAML, so documents using
them could be parsed but not written.
---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 6da8e2f..1898a4f 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -229,7 +229,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index a8d2ee4..a1305d6 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -193,7 +193,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index f3c9cd1..e317ba7 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -193,7 +193,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 44b8708..f40fc37 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -193,7 +193,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 1e7f312..388ea61 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -193,7 +193,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index cec175e..1cb3896 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -193,7 +193,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From 89770f137cec0708871bccf54f689a09196d146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 05/25] fix: read a map without a value facet as the value of
 an untyped example

The examples of any, custom, file, object and union types may be maps.  Such a
map was always taken apart as an expanded example, so the example had no value
and its members ended up in the facets of the example.  RAML defines a map as
an expanded example only if it has the value facet.
---
 v0/gen/example-m.tpl                |  4 ++--
 v0/internal/raml/util-example.go    | 33 +++++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-any.go    |  4 ++--
 v0/internal/raml/x-gen-ex-custom.go |  4 ++--
 v0/internal/raml/x-gen-ex-file.go   |  4 ++--
 v0/internal/raml/x-gen-ex-object.go |  4 ++--
 v0/internal/raml/x-gen-ex-union.go  |  4 ++--
 7 files changed, 45 insertions(+), 12 deletions(-)
 create mode 100644 v0/internal/raml/util-example.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 1898a4f..002744a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -123,7 +123,7 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 
 func (e *{{.Name}}Example) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if {{if eq .Type "interface{}"}}isExpandedExample(value){{else}}xyml.IsMap(value){{end}} {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 }
 
 func (e *{{.Name}}Example) expand() bool {
-	return e.value == nil ||
+	return e.value == nil ||{{if eq .Type "interface{}"}} isAmbiguousExample(*e.value) ||{{end}}
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/util-example.go b/v0/internal/raml/util-example.go
new file mode 100644
index 0000000..b5675b3
--- /dev/null
+++ b/v0/internal/raml/util-example.go
@@ -0,0 +1,33 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// isExpandedExample returns whether the given node is the expanded form of an
+// example whose value may itself be a map.
+//
+// As per the RAML specification, a map is an expanded example only if it
+// contains the `value` facet, otherwise the map itself is the value.
+func isExpandedExample(v *yaml.Node) bool {
+	if !xyml.IsMap(v) {
+		return false
+	}
+
+	for i := 0; i+1 < len(v.Content); i += 2 {
+		if v.Content[i].Value == rmeta.KeyValue {
+			return true
+		}
+	}
+
+	return false
+}
+
+// isAmbiguousExample returns whether the given example value would be mistaken
+// for an expanded example if it was written by itself.
+func isAmbiguousExample(v interface{}) bool {
+	node, err := xyml.ToYamlNode(v)
+	return err == nil && isExpandedExample(node)
+}
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index a1305d6..a193ab0 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -117,7 +117,7 @@ func (e AnyExample) ToYAML() (*yaml.Node, error) {
 
 func (e *AnyExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,7 +184,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *AnyExample) expand() bool {
-	return e.value == nil ||
+	return e.value == nil || isAmbiguousExample(*e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index e317ba7..d681d47 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -117,7 +117,7 @@ func (e CustomExample) ToYAML() (*yaml.Node, error) {
 
 func (e *CustomExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,7 +184,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *CustomExample) expand() bool {
-	return e.value == nil ||
+	return e.value == nil || isAmbiguousExample(*e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index f40fc37..ee52978 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -117,7 +117,7 @@ func (e FileExample) ToYAML() (*yaml.Node, error) {
 
 func (e *FileExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,7 +184,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *FileExample) expand() bool {
-	return e.value == nil ||
+	return e.value == nil || isAmbiguousExample(*e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 388ea61..ccf4c28 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -117,7 +117,7 @@ func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 
 func (e *ObjectExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,7 +184,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ObjectExample) expand() bool {
-	return e.value == nil ||
+	return e.value == nil || isAmbiguousExample(*e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 1cb3896..ba195d1 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -117,7 +117,7 @@ func (e UnionExample) ToYAML() (*yaml.Node, error) {
 
 func (e *UnionExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -184,7 +184,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *UnionExample) expand() bool {
-	return e.value == nil ||
+	return e.value == nil || isAmbiguousExample(*e.value) ||
 		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
-- 
2.43.0


From ef455a1bed407b1a92527314c04cc9962230d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 06/25] fix: accept the example facet on any types

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From 74e3cff21cac37a2e3db8d0d1a0121224087c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 07/25] fix: accept whole numbers in number facets, enums and
 examples

minimum, maximum, multipleOf, enum and example values of number types (and
multipleOf of integer types) were rejected unless written with a fraction or
an exponent, as YAML tags whole numbers as integers.
---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 13 ++++++++++++-
 5 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 002744a..9e795fd 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -217,7 +217,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index b6f03bb..25bec02 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index c111448..2c9b956 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -193,7 +193,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 937d5c9..69aa6e2 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..05c99cd 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -6,7 +6,7 @@ import (
 )
 
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
@@ -14,3 +14,14 @@ func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
 
 	return nil
 }
+
+// ToFloat64 parses the given node as a number.  Whole numbers are written and
+// tagged as integers in YAML, so both number types are accepted.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		val, err := xyml.ToInt(v, 10)
+		return float64(val), err
+	}
+
+	return xyml.ToFloat(v)
+}
-- 
2.43.0


From 22e8b9de8475d908a07c9684aebeb988716dba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 08/25] fix: write number facets, enums and examples without
 losing digits

Floating point values were written with ten significant digits, so writing a
document silently changed values such as 3.14159265358979.
---
 v0/gen/example-m.tpl                   |  4 ++--
 v0/gen/type-m/extended.tpl             |  4 ++--
 v0/gen/type-m/integer.tpl              |  2 +-
 v0/gen/type-m/number.tpl               |  6 ++---
 v0/internal/raml/util-number.go        | 32 ++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-number.go    |  4 ++--
 v0/internal/raml/x-gen-type-integer.go |  2 +-
 v0/internal/raml/x-gen-type-number.go  | 10 ++++----
 8 files changed, 48 insertions(+), 16 deletions(-)
 create mode 100644 v0/internal/raml/util-number.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 9e795fd..891c7e3 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -116,7 +116,7 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if simple {
-		return xyml.ToYamlNode(e.value)
+		return xyml.ToYamlNode({{if eq .Type "float64"}}(*number)(e.value){{else}}e.value{{end}})
 	}
 	return out.ToYAML()
 }
@@ -134,7 +134,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, {{if eq .Type "float64"}}(*number)(e.value){{else}}e.value{{end}})
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 25bec02..14c28b2 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -235,7 +235,7 @@ func (o *{{.Name}}Type) SetRequired(b bool) raml.{{.Name}}Type {
 
 func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.{{.Name}}Type.marshal")
-	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	out.PutIfNotNil(rmeta.KeyDefault, {{if eq .Name "Number"}}(*number)(o.def){{else}}o.def{{end}})
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
@@ -255,7 +255,7 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{- else if eq .Name "Datetime" -}}
 	{{template "datetime-marshal" $}}
 	{{- end}}
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+	out.PutIfNotNil(rmeta.KeyEnum, {{if eq .Name "Number"}}toNumbers(o.enum){{else}}o.enum{{end}}).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
diff --git a/v0/gen/type-m/integer.tpl b/v0/gen/type-m/integer.tpl
index 5d14b40..8e486e6 100644
--- a/v0/gen/type-m/integer.tpl
+++ b/v0/gen/type-m/integer.tpl
@@ -30,7 +30,7 @@ func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/gen/type-m/number.tpl b/v0/gen/type-m/number.tpl
index 6472793..b1edda7 100644
--- a/v0/gen/type-m/number.tpl
+++ b/v0/gen/type-m/number.tpl
@@ -28,9 +28,9 @@ type Bar struct {
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "number-marshal" -}}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMinimum, (*number)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*number)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/internal/raml/util-number.go b/v0/internal/raml/util-number.go
new file mode 100644
index 0000000..db9e5e4
--- /dev/null
+++ b/v0/internal/raml/util-number.go
@@ -0,0 +1,32 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+	"strconv"
+)
+
+// number is a float value which is written with as many digits as are needed to
+// read the same value back.
+type number float64
+
+func (n number) ToYAML() (*yaml.Node, error) {
+	return &yaml.Node{
+		Kind:  yaml.ScalarNode,
+		Tag:   xyml.TagFloat,
+		Value: strconv.FormatFloat(float64(n), 'g', -1, 64),
+	}, nil
+}
+
+func toNumbers(vals []float64) []number {
+	if vals == nil {
+		return nil
+	}
+
+	out := make([]number, len(vals))
+	for i, v := range vals {
+		out[i] = number(v)
+	}
+
+	return out
+}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 2c9b956..25861d6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -110,7 +110,7 @@ func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	if simple, err := e.MarshalRAML(out); err != nil {
 		return nil, err
 	} else if simple {
-		return xyml.ToYamlNode(e.value)
+		return xyml.ToYamlNode((*number)(e.value))
 	}
 	return out.ToYAML()
 }
@@ -128,7 +128,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, (*number)(e.value))
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index c06068a..56a678e 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -251,7 +251,7 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 69aa6e2..7ae205d 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -243,16 +243,16 @@ func (o *NumberType) UnsetMultipleOf() raml.NumberType {
 
 func (o *NumberType) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.NumberType.marshal")
-	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	out.PutIfNotNil(rmeta.KeyDefault, (*number)(o.def))
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+		PutIfNotNil(rmeta.KeyMinimum, (*number)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*number)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
+	out.PutIfNotNil(rmeta.KeyEnum, toNumbers(o.enum)).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
-- 
2.43.0


From a5aa7aa1a21f71ac4fba82be924424710af8cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 09/25] fix: reject negative values of unsigned facets

Negative lengths and counts such as minLength: -1 were converted to huge
positive values instead of being reported.  Values above the signed maximum,
which the setters accept and the writer emits, can now be read back.
---
 v0/internal/util/assign/uint.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..9dedcfe 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,16 +1,20 @@
 package assign
 
 import (
+	"fmt"
+	"strconv"
+	"strings"
+
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	if val, err := parseUint(v); err != nil {
 		return err
 	} else {
-		*ptr = uint(val)
+		*ptr = val
 	}
 
 	return nil
@@ -18,12 +22,24 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 
 // Helper function for uint values in assign functions
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	if val, err := parseUint(v); err != nil {
 		return err
 	} else {
-		tmp := uint(val)
-		*ptr = &tmp
+		*ptr = &val
 	}
 
 	return nil
 }
+
+func parseUint(v *yaml.Node) (uint, error) {
+	if err := xyml.RequireInt(v); err != nil {
+		return 0, err
+	}
+
+	val, err := strconv.ParseUint(strings.TrimPrefix(v.Value, "+"), 10, strconv.IntSize)
+	if err != nil {
+		return 0, fmt.Errorf("cannot parse value as an unsigned int at %d:%d: %w", v.Line, v.Column, err)
+	}
+
+	return uint(val), nil
+}
-- 
2.43.0


From 39c752e1649a05344d49ae5845a182f6e3541fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 10/25] fix: write the xml facet of types

Documents with an xml facet could be parsed but not written, as the XML type
had no YAML form, and unknown members of the facet were dropped.
---
 v0/internal/raml/type-xml.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..e52b0c9 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -104,10 +104,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyName, x.name).
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +133,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 4793b693ddd2092c4cd53f5255ebecb055017c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 11/25] fix: write the documentation section of API documents

Documents with a documentation section could be parsed but not written, as
the entries had no YAML form.
---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..9055ef3 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d *Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From 85d36f39ec89fb8a719484fb078fc3588b477d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 12/25] fix: keep included documentation content and reject
 non-text entries

The title and content of documentation entries were taken from any node, so an
included content file was written back as plain text, and mappings or
sequences were silently replaced by empty text.
---
 v0/internal/raml/Documentation.go | 19 +++++++++++++++----
 v0/internal/raml/util-include.go  | 20 ++++++++++++++++++++
 2 files changed, 35 insertions(+), 4 deletions(-)
 create mode 100644 v0/internal/raml/util-include.go

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 9055ef3..f18e866 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -14,6 +15,7 @@ func NewDocumentation() *Documentation {
 type Documentation struct {
 	title   string
 	content string
+	include bool // whether content is the path of an included file
 	extra   raml.AnyMap
 }
 
@@ -32,6 +34,7 @@ func (d *Documentation) Content() string {
 
 func (d *Documentation) SetContent(content string) raml.Documentation {
 	d.content = content
+	d.include = false
 	return d
 }
 
@@ -40,8 +43,12 @@ func (d *Documentation) ExtraFacets() raml.AnyMap {
 }
 
 func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
-	out.Put(rmeta.KeyTitle, d.title).
-		Put(rmeta.KeyContent, d.content)
+	out.Put(rmeta.KeyTitle, d.title)
+	if d.include {
+		out.Put(rmeta.KeyContent, newIncludeNode(d.content))
+	} else {
+		out.Put(rmeta.KeyContent, d.content)
+	}
 	d.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 	return false, nil
 }
@@ -58,9 +65,13 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			return assign.AsString(v, &d.title)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			if d.include = isInclude(v); d.include {
+				d.content = v.Value
+				return nil
+			}
+			return assign.AsString(v, &d.content)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
diff --git a/v0/internal/raml/util-include.go b/v0/internal/raml/util-include.go
new file mode 100644
index 0000000..af66102
--- /dev/null
+++ b/v0/internal/raml/util-include.go
@@ -0,0 +1,20 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+const tagInclude = "!include"
+
+func isInclude(v *yaml.Node) bool {
+	return xyml.IsScalar(v) && v.Tag == tagInclude
+}
+
+func newIncludeNode(path string) *yaml.Node {
+	return &yaml.Node{
+		Kind:  yaml.ScalarNode,
+		Tag:   tagInclude,
+		Value: path,
+	}
+}
-- 
2.43.0


From dc967d36f149b2b466d712fe2de778509cfc6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 13/25] fix: accept empty type definitions as strings

A type, property or items definition without a value was rejected, although
it defaults to string in RAML and the error message itself lists it as valid.
The check tested the node pointer instead of the node.
---
 v0/internal/raml/fn-sorting-hat-type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..8700d11 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -2,7 +2,6 @@ package raml
 
 import (
 	"fmt"
-	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,7 +49,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From 1c3f4fe7d8c30ac5fbea304db51b9daa6df13c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 14/25] fix: accept an included type in an expanded type
 definition

{type: !include path} was recognised as an include type and then rejected
because the path does not have the plain string tag.
---
 v0/internal/raml/DataType.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..faf0a6f 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -100,7 +100,9 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
-		if err := xyml.RequireString(val); err != nil {
+		if isInclude(val) && d.kind == rmeta.TypeInclude {
+			d.schema = val.Value
+		} else if err := xyml.RequireString(val); err != nil {
 			return err
 		} else {
 			d.schema = val.Value
-- 
2.43.0


From 668b5a018812c8ef28602faf8b5095e399676aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 15/25] fix: write quoted include expressions as includes of
 the same file

A type given as the text "!include path" was written as
!include '!include path', which names a different file.
---
 v0/internal/raml/DataType.go            | 5 +++--
 v0/internal/raml/fn-sorting-hat-type.go | 4 ++--
 v0/internal/raml/util-include.go        | 5 ++++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index faf0a6f..f15c065 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
@@ -100,8 +101,8 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
-		if isInclude(val) && d.kind == rmeta.TypeInclude {
-			d.schema = val.Value
+		if d.kind == rmeta.TypeInclude && (isInclude(val) || xyml.IsString(val)) {
+			d.schema = strings.TrimPrefix(val.Value, includePrefix)
 		} else if err := xyml.RequireString(val); err != nil {
 			return err
 		} else {
diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index 8700d11..4eae1c7 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -88,9 +88,9 @@ func typeToKind(val string) concreteType {
 		return NewTimeOnlyType()
 	}
 
-	if strings.HasPrefix(val, "!include ") {
+	if strings.HasPrefix(val, includePrefix) {
 		out := NewIncludeType()
-		out.schema = val
+		out.schema = strings.TrimPrefix(val, includePrefix)
 		return out
 	}
 
diff --git a/v0/internal/raml/util-include.go b/v0/internal/raml/util-include.go
index af66102..532b186 100644
--- a/v0/internal/raml/util-include.go
+++ b/v0/internal/raml/util-include.go
@@ -5,7 +5,10 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-const tagInclude = "!include"
+const (
+	tagInclude    = "!include"
+	includePrefix = tagInclude + " "
+)
 
 func isInclude(v *yaml.Node) bool {
 	return xyml.IsScalar(v) && v.Tag == tagInclude
-- 
2.43.0


From 63f06113d4b9dc0ce518f618d27cd697b5a9e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 16/25] fix: do not panic on nil and included properties

nil and include types did not have the required flag which properties need, so
an object with such a property crashed the parser.
---
 v0/gen/type-m/base.tpl                 |  3 +++
 v0/internal/raml/DataType.go           | 16 ++++++++++++++--
 v0/internal/raml/type-datatype-ext.go  | 10 ----------
 v0/internal/raml/x-gen-type-include.go |  3 +++
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..c2f714a 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -38,6 +38,9 @@ func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
 		Value: a.DataType.schema,
 	})
 	a.DataType.hasExtra.out(out)
+	if !a.DataType.required {
+		out.Put(rmeta.KeyRequired, a.DataType.required)
+	}
 
 	return nil
 }
diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index f15c065..927bc0d 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"errors"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -16,6 +17,7 @@ func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
 		schema:   string(kind),
 		kind:     kind,
 		hasExtra: makeExtra(),
+		required: true,
 	}
 }
 
@@ -24,8 +26,9 @@ type DataType struct {
 
 	self concreteType
 
-	schema string
-	kind   rmeta.DataTypeKind
+	schema   string
+	kind     rmeta.DataTypeKind
+	required bool
 }
 
 func (d *DataType) Schema() string {
@@ -44,6 +47,10 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+func (d *DataType) Required() bool {
+	return d.required
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	panic("implement me")
 }
@@ -95,6 +102,9 @@ func (d *DataType) UnmarshalRAML(val *yaml.Node) error {
 func (d *DataType) marshal(out raml.AnyMap) error {
 	out.Put(rmeta.KeyType, d.schema)
 	d.hasExtra.out(out)
+	if !d.required {
+		out.Put(rmeta.KeyRequired, d.required)
+	}
 	return nil
 }
 
@@ -109,6 +119,8 @@ func (d *DataType) assign(key, val *yaml.Node) error {
 			d.schema = val.Value
 		}
 		return nil
+	case rmeta.KeyRequired:
+		return assign.AsBool(val, &d.required)
 	}
 
 	d.hasExtra.in(key, val)
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 706f931..020337c 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -14,7 +14,6 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
 		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
-		required:       true,
 	}
 }
 
@@ -26,7 +25,6 @@ type ExtendedDataType struct {
 	description *string
 	facets      raml.FacetMap
 	xml         raml.XML
-	required    bool
 }
 
 func (e *ExtendedDataType) DisplayName() option.String {
@@ -45,10 +43,6 @@ func (e *ExtendedDataType) XML() raml.XML {
 	return e.xml
 }
 
-func (e *ExtendedDataType) Required() bool {
-	return e.required
-}
-
 func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 		PutIfNotNil(rmeta.KeyDescription, e.description)
@@ -57,10 +51,6 @@ func (e *ExtendedDataType) marshal(out raml.AnyMap) error {
 		return err
 	}
 
-	if !e.required {
-		out.Put(rmeta.KeyRequired, e.required)
-	}
-
 	e.hasAnnotations.out(out)
 
 	if e.facets.Len() > 0 {
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..e2b0396 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -33,6 +33,9 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 		Value: a.DataType.schema,
 	})
 	a.DataType.hasExtra.out(out)
+	if !a.DataType.required {
+		out.Put(rmeta.KeyRequired, a.DataType.required)
+	}
 
 	return nil
 }
-- 
2.43.0


From 558c002be1487fb3eec7d4ec0c2538ac1a59b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 17/25] fix: keep the annotationTypes section of libraries

Annotation type declarations of a library were added to the annotations
applied to the library, were written at the root of the document, and were
rejected in the short form accepted for API documents.
---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index f6c84cf..a21fe84 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -213,7 +213,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 789d1966aaa8f2b9f700dfcaa0fef8fbe94a3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 18/25] fix: do not panic when looking up a stored nil as an
 option

---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..d2252e6 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -197,7 +197,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..e31a51a 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -197,7 +197,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..654b327 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -197,7 +197,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
-- 
2.43.0


From d5772bc4850a5ed0501b18eab1d615647f6f8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 19/25] fix: implement writing a single type

ToRAML of every type panicked unconditionally.
---
 v0/internal/raml/DataType.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 927bc0d..ace0b78 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -52,7 +52,13 @@ func (d *DataType) Required() bool {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	node, err := d.ToYAML()
+	if err != nil {
+		return "", err
+	}
+
+	out, err := yaml.Marshal(node)
+	return string(out), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From c55587596b9bfc7d309ac4a032433d96169f8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 20/25] fix: accept unquoted dates in date type enums and
 examples

Unquoted dates such as 2015-05-23, the form used by the RAML specification,
are tagged as timestamps in YAML and were rejected.
---
 v0/gen/example-m.tpl                         |  8 +++++++-
 v0/gen/type-m/extended.tpl                   |  2 ++
 v0/internal/raml/x-gen-ex-dateonly.go        |  5 +++--
 v0/internal/raml/x-gen-ex-datetime.go        |  5 +++--
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  5 +++--
 v0/internal/raml/x-gen-type-date-only.go     |  2 +-
 v0/internal/raml/x-gen-type-datetime-only.go |  2 +-
 v0/internal/raml/x-gen-type-datetime.go      |  2 +-
 v0/internal/util/assign/date.go              | 16 ++++++++++++++++
 9 files changed, 37 insertions(+), 10 deletions(-)
 create mode 100644 v0/internal/util/assign/date.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 891c7e3..2704edc 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -199,7 +199,13 @@ func (e *{{.Name}}Example) expand() bool {
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
-	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+	if tmp, err := assign.ToDateString(val); err != nil {
+		return err
+	} else {
+		e.value = &tmp
+	}
+	{{- else if eq .Type "string" -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 14c28b2..70107cc 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -288,6 +288,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
 				if val, err := assign.ToFloat64(cur); err != nil {
+			{{else if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+				if val, err := assign.ToDateString(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 859a204..59359dc 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -193,10 +193,11 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index a6c6c49..bfc1906 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -193,10 +193,11 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 37f7273..e776945 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -193,10 +193,11 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 1fcca7e..e41ba84 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -215,7 +215,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 39b872d..58a16f3 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -215,7 +215,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index ac1416e..758697b 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -230,7 +230,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
+			if val, err := assign.ToDateString(cur); err != nil {
 
 				return err
 			} else {
diff --git a/v0/internal/util/assign/date.go b/v0/internal/util/assign/date.go
new file mode 100644
index 0000000..e9bce6a
--- /dev/null
+++ b/v0/internal/util/assign/date.go
@@ -0,0 +1,16 @@
+package assign
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// ToDateString returns the text of the given date or time.  Dates which are not
+// quoted are tagged as timestamps in YAML, so both forms are accepted.
+func ToDateString(v *yaml.Node) (string, error) {
+	if xyml.IsTimestamp(v) {
+		return v.Value, nil
+	}
+
+	return xyml.ToString(v)
+}
-- 
2.43.0


From 4b4a30d85b90421a02f109cb7a34398696aae51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 21/25] fix: make the default facet available from parsed types

The default facet of parsed types was filed under the extra facets and the
Default accessor of every type stayed empty.
---
 v0/gen/type-m/extended.tpl                   | 16 ++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         |  6 ++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 v0/internal/util/assign/date.go              | 10 ++++++++++
 16 files changed, 68 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 70107cc..6a9d892 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -267,6 +267,22 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "Untyped" -}}
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
+		{{- else if eq .Name "Array" -}}
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
+		{{- else if eq .Name "DateOnly" "Datetime" "DatetimeOnly" -}}
+		return assign.AsDateStringPtr(val, &o.def)
+		{{- else -}}
+		return assign.As{{.DefTypeName}}Ptr(val, &o.def)
+		{{- end}}
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 1b8f504..481dd94 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -201,6 +201,10 @@ func (o *AnyType) marshal(out raml.AnyMap) error {
 
 func (o *AnyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index d60a19a..dcc1ff7 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -263,6 +263,12 @@ func (o *ArrayType) marshal(out raml.AnyMap) error {
 
 func (o *ArrayType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index aaec9b5..d6a5a85 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -201,6 +201,8 @@ func (o *BoolType) marshal(out raml.AnyMap) error {
 
 func (o *BoolType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 1099055..f33b718 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -201,6 +201,10 @@ func (o *CustomType) marshal(out raml.AnyMap) error {
 
 func (o *CustomType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index e41ba84..95a9015 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -201,6 +201,8 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 58a16f3..5b621ba 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -201,6 +201,8 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 758697b..ab1467f 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -216,6 +216,8 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsDateStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index 4c99bb2..30bac46 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -247,6 +247,10 @@ func (o *FileType) marshal(out raml.AnyMap) error {
 
 func (o *FileType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 56a678e..f87031f 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -264,6 +264,8 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 
 func (o *IntegerType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 7ae205d..dd777e3 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -264,6 +264,8 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 
 func (o *NumberType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 9eb7064..d46d266 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -304,6 +304,10 @@ func (o *ObjectType) marshal(out raml.AnyMap) error {
 
 func (o *ObjectType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 9c24fce..e15a4a5 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -247,6 +247,8 @@ func (o *StringType) marshal(out raml.AnyMap) error {
 
 func (o *StringType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 5e8109f..1394a9d 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -201,6 +201,8 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 9064d2d..b16d559 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -201,6 +201,10 @@ func (o *UnionType) marshal(out raml.AnyMap) error {
 
 func (o *UnionType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/util/assign/date.go b/v0/internal/util/assign/date.go
index e9bce6a..a9ebc2c 100644
--- a/v0/internal/util/assign/date.go
+++ b/v0/internal/util/assign/date.go
@@ -14,3 +14,13 @@ func ToDateString(v *yaml.Node) (string, error) {
 
 	return xyml.ToString(v)
 }
+
+func AsDateStringPtr(v *yaml.Node, ptr **string) error {
+	if val, err := ToDateString(v); err != nil {
+		return err
+	} else {
+		*ptr = &val
+	}
+
+	return nil
+}
-- 
2.43.0


From 0a7b7fbded77c282d0c94d8cf9889b7f04f8019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 22/25] fix: do not panic on array values in conditional
 insertion

---
 v0/internal/util/nil.go   | 2 +-
 v0/pkg/raml/AnyMap.go     | 3 ++-
 v0/pkg/raml/UntypedMap.go | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/v0/internal/util/nil.go b/v0/internal/util/nil.go
index b32639d..6bc3dc0 100644
--- a/v0/internal/util/nil.go
+++ b/v0/internal/util/nil.go
@@ -10,7 +10,7 @@ func IsNil(val interface{}) bool {
 	ref := reflect.ValueOf(val)
 
 	switch ref.Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Array:
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func:
 		return ref.IsNil()
 	case reflect.Invalid:
 		return true
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index e31a51a..840341b 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -164,7 +165,7 @@ func (i *implAnyMap) Put(k interface{}, v interface{}) AnyMap {
 }
 
 func (i *implAnyMap) PutIfNotNil(k interface{}, v interface{}) AnyMap {
-	if !gomp.IsNil(v) {
+	if !util.IsNil(v) {
 		return i.Put(k, gomp.Deref(v))
 	}
 
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 654b327..0c5194d 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/Foxcapades/gomp/v1/pkg/gomp"
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
@@ -164,7 +165,7 @@ func (i *implUntypedMap) Put(k string, v interface{}) UntypedMap {
 }
 
 func (i *implUntypedMap) PutIfNotNil(k string, v interface{}) UntypedMap {
-	if !gomp.IsNil(v) {
+	if !util.IsNil(v) {
 		return i.Put(k, gomp.Deref(v))
 	}
 
-- 
2.43.0


From 4c845a4de0bbf65cd160f4aabfef74abf62c9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 23/25] fix: write formats that users of the library implement

---
 v0/internal/raml/util-format.go         | 17 +++++++++++++++++
 v0/internal/raml/x-gen-type-datetime.go |  2 +-
 v0/internal/raml/x-gen-type-integer.go  |  2 +-
 v0/internal/raml/x-gen-type-number.go   |  2 +-
 4 files changed, 20 insertions(+), 3 deletions(-)
 create mode 100644 v0/internal/raml/util-format.go

diff --git a/v0/internal/raml/util-format.go b/v0/internal/raml/util-format.go
new file mode 100644
index 0000000..011176a
--- /dev/null
+++ b/v0/internal/raml/util-format.go
@@ -0,0 +1,17 @@
+package raml
+
+import (
+	"fmt"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
+)
+
+// formatText returns the text of a format facet, or nil if no format is set.
+func formatText(format fmt.Stringer) *string {
+	if util.IsNil(format) {
+		return nil
+	}
+
+	out := format.String()
+
+	return &out
+}
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index ab1467f..8c75363 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -203,7 +203,7 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format)
+	out.PutIfNotNil(rmeta.KeyFormat, formatText(o.format))
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index f87031f..0dcc7b8 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -248,7 +248,7 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
+	out.PutIfNotNil(rmeta.KeyFormat, formatText(o.format)).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index dd777e3..11ce1a9 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -248,7 +248,7 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
+	out.PutIfNotNil(rmeta.KeyFormat, formatText(o.format)).
 		PutIfNotNil(rmeta.KeyMinimum, (*number)(o.minimum)).
 		PutIfNotNil(rmeta.KeyMaximum, (*number)(o.maximum)).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*number)(o.multipleOf))
-- 
2.43.0


From 3efe104e73c940ccd90a9b96735669b3008030ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 24/25] fix: report unreadable input as an error instead of a
 panic

---
 v0/pkg/raml/rparse/decode.go    | 33 +++++++++++++++++++++++++++++++++
 v0/pkg/raml/rparse/parse-api.go |  4 +---
 v0/pkg/raml/rparse/parse-lib.go |  4 +---
 3 files changed, 35 insertions(+), 6 deletions(-)
 create mode 100644 v0/pkg/raml/rparse/decode.go

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
new file mode 100644
index 0000000..2d4157a
--- /dev/null
+++ b/v0/pkg/raml/rparse/decode.go
@@ -0,0 +1,33 @@
+package rparse
+
+import (
+	"fmt"
+	"io"
+
+	"gopkg.in/yaml.v3"
+)
+
+// decode reads one YAML document from the given reader into the given value.
+func decode(red io.Reader, out interface{}) error {
+	var node yaml.Node
+
+	if err := readNode(yaml.NewDecoder(red), &node); err != nil {
+		return err
+	}
+
+	return node.Decode(out)
+}
+
+// readNode reads the next YAML document.
+//
+// If the input ends with an error or with an invalid character, the YAML parser
+// does not always report that but panics about an unknown event instead.
+func readNode(dec *yaml.Decoder, node *yaml.Node) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("yaml: cannot read the document: %v", e)
+		}
+	}()
+
+	return dec.Decode(node)
+}
diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index cf1e7bd..10b9dc5 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -2,7 +2,6 @@ package rparse
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
@@ -10,9 +9,8 @@ import (
 
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil {
+	if err := decode(red, out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index e4262fc..23ef193 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -3,15 +3,13 @@ package rparse
 import (
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil && err != io.EOF {
+	if err := decode(red, out); err != nil && err != io.EOF {
 		return nil, err
 	}
 
-- 
2.43.0


From 13ebabea0c9f618c8e8409ee9eae63c720a42cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 25/25] fix: indent the text of a single type as documents are
 indented

Indented by four, texts in lists that start with a blank or an empty line
were written in a form that YAML readers reject.
---
 v0/internal/raml/DataType.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index ace0b78..63b20a8 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -57,8 +57,13 @@ func (d *DataType) ToRAML() (string, error) {
 		return "", err
 	}
 
-	out, err := yaml.Marshal(node)
-	return string(out), err
+	// Indented as documents are, other indentations break texts that start with
+	// a blank or an empty line.
+	var out strings.Builder
+	enc := yaml.NewEncoder(&out)
+	enc.SetIndent(2)
+	err = enc.Encode(node)
+	return out.String(), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0

