From 5101ea50a856060bb2a847499c2208814f927916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 01/27] fix: accept empty-string keys instead of panicking

A mapping key that is the empty string made the annotation/resource prefix
test index past the end of the key.
---
 v0/gen/example-m.tpl                      | 3 ++-
 v0/internal/raml/APISpec.go               | 5 +++--
 v0/internal/raml/Library.go               | 3 ++-
 v0/internal/raml/in-components.go         | 3 ++-
 v0/internal/raml/x-gen-ex-any.go          | 3 ++-
 v0/internal/raml/x-gen-ex-array.go        | 3 ++-
 v0/internal/raml/x-gen-ex-bool.go         | 3 ++-
 v0/internal/raml/x-gen-ex-custom.go       | 3 ++-
 v0/internal/raml/x-gen-ex-dateonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetime.go     | 3 ++-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 3 ++-
 v0/internal/raml/x-gen-ex-file.go         | 3 ++-
 v0/internal/raml/x-gen-ex-integer.go      | 3 ++-
 v0/internal/raml/x-gen-ex-number.go       | 3 ++-
 v0/internal/raml/x-gen-ex-object.go       | 3 ++-
 v0/internal/raml/x-gen-ex-string.go       | 3 ++-
 v0/internal/raml/x-gen-ex-timeonly.go     | 3 ++-
 v0/internal/raml/x-gen-ex-union.go        | 3 ++-
 18 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..17e7721 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -9,6 +9,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // New{{.Name}}Example returns a new internal implementation of the
@@ -157,7 +158,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..ffdd42c 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewApiSpec() *APISpec {
@@ -379,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +389,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if strings.HasPrefix(k.Value, "/") {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..c4cfe3a 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewLibrary() *Library {
@@ -227,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..3972c4e 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 /******************************************************************************/
@@ -24,7 +25,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if !strings.HasPrefix(k, "(") {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..734dad3 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewAnyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..1509c83 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewArrayExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..42ba79c 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewBoolExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..1bcb539 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewCustomExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..98abc6d 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDateOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..83b513e 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..c5069b1 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewDatetimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..f3c2ad8 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewFileExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..6ee6339 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewIntegerExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..c8e7552 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewNumberExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..5aea9b9 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewObjectExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..3d5046c 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewStringExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..50d76d0 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewTimeOnlyExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..337b802 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 // NewUnionExample returns a new internal implementation of the
@@ -151,7 +152,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if strings.HasPrefix(key.Value, "(") {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From c1ad21263d4a2fac225b4c23f604db4ebbe502ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 02/27] fix: allow nil and !include typed object properties

Neither basic type implemented raml.Property, so parsing an object type with
such a property panicked on the type assertion.
---
 v0/internal/raml/DataType.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..310da2a 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -43,6 +43,22 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+// Required returns whether this type, when used as an object property, must be
+// present.  The basic types keep the `required` facet among their extra facets.
+func (d *DataType) Required() bool {
+	if val, ok := d.hasExtra.mp.Get(rmeta.KeyRequired); ok {
+		switch req := val.(type) {
+		case bool:
+			return req
+		case *yaml.Node:
+			if b, err := xyml.ToBoolean(req); err == nil {
+				return b
+			}
+		}
+	}
+	return true
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	panic("implement me")
 }
-- 
2.43.0


From fe0dc9a965218715f2048d6e964652ab169b9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 03/27] fix: write short form examples as their bare value

Examples without extra metadata were written as a mapping with an empty key,
which cannot be read back.
---
 v0/gen/example-m.tpl                      | 8 ++++++--
 v0/internal/raml/x-gen-ex-any.go          | 8 ++++++--
 v0/internal/raml/x-gen-ex-array.go        | 8 ++++++--
 v0/internal/raml/x-gen-ex-bool.go         | 8 ++++++--
 v0/internal/raml/x-gen-ex-custom.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 8 ++++++--
 v0/internal/raml/x-gen-ex-file.go         | 8 ++++++--
 v0/internal/raml/x-gen-ex-integer.go      | 8 ++++++--
 v0/internal/raml/x-gen-ex-number.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-object.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-string.go       | 8 ++++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 8 ++++++--
 v0/internal/raml/x-gen-ex-union.go        | 8 ++++++--
 15 files changed, 90 insertions(+), 30 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 17e7721..fce1fc6 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -113,8 +113,12 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -144,7 +148,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 734dad3..20a83ba 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -107,8 +107,12 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *AnyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 1509c83..51797ad 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -107,8 +107,12 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *ArrayExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 42ba79c..b56fbb7 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -107,8 +107,12 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *BoolExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1bcb539..b7d3ed0 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -107,8 +107,12 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *CustomExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 98abc6d..b8ee1b7 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -107,8 +107,12 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *DateOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 83b513e..81df991 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -107,8 +107,12 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *DatetimeExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index c5069b1..3c7ec81 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -107,8 +107,12 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *DatetimeOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index f3c2ad8..da4e4fa 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -107,8 +107,12 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *FileExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 6ee6339..c25bcf1 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -107,8 +107,12 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *IntegerExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index c8e7552..cd81b30 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -107,8 +107,12 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 5aea9b9..48e37b4 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -107,8 +107,12 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *ObjectExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 3d5046c..a515735 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -107,8 +107,12 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *StringExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 50d76d0..a8d5005 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -107,8 +107,12 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *TimeOnlyExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 337b802..94a1f32 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -107,8 +107,12 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	if short, err := e.MarshalRAML(out); err != nil {
 		return nil, err
+	} else if short {
+		if val, ok := out.Get(""); ok {
+			return xyml.ToYamlNode(val)
+		}
 	}
 	return out.ToYAML()
 }
@@ -138,7 +142,7 @@ func (e *UnionExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.PutIfNotNil("", e.value)
 	return true, nil
 }
 
-- 
2.43.0


From cba4c3bdf5115d7b7c732ae23982d717d38aba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 04/27] fix: support examples on any typed declarations

ExampleSortingHat had no case for the any kind, so an any type carrying an
example was rejected.
---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From 485862993f5073db30d71882a55661d5019e08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 05/27] fix: keep untyped example values as YAML node pointers

Storing a copy of the node made every document holding such an example
impossible to write (cannot convert type yaml.Node to a scalar node).
---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index fce1fc6..6e31b51 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -230,7 +230,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 20a83ba..f5de32e 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -194,7 +194,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index b7d3ed0..968883c 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -194,7 +194,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index da4e4fa..afcb076 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -194,7 +194,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 48e37b4..d474c9a 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -194,7 +194,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 94a1f32..996bc3c 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -194,7 +194,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From 9caaf4208aa0634bfb5a33c19a97b6fc514fc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 06/27] fix: read mapping example values of untyped kinds as
 values

An example of an any, custom, file, object or union type is only expanded if
it has the required value facet. Any other mapping is the value itself.
---
 v0/gen/example-m.tpl                | 10 +++++++++-
 v0/internal/raml/util-ex-value.go   | 31 +++++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-any.go    |  8 +++++---
 v0/internal/raml/x-gen-ex-custom.go |  8 +++++---
 v0/internal/raml/x-gen-ex-file.go   |  8 +++++---
 v0/internal/raml/x-gen-ex-object.go |  8 +++++---
 v0/internal/raml/x-gen-ex-union.go  |  8 +++++---
 7 files changed, 65 insertions(+), 16 deletions(-)
 create mode 100644 v0/internal/raml/util-ex-value.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 6e31b51..d7b7cd6 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -124,8 +124,13 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *{{.Name}}Example) UnmarshalRAML(value *yaml.Node) error {
-
+	{{if eq .Type "interface{}" -}}
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
+	{{- else}}
 	if xyml.IsMap(value) {
+	{{- end}}
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -197,6 +202,9 @@ func (e *{{.Name}}Example) expand() bool {
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
 		e.strict != rmeta.ExampleDefaultStrict
+		{{- if eq .Type "interface{}"}} ||
+		e.value != nil && looksExpanded(*e.value)
+		{{- end}}
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/util-ex-value.go b/v0/internal/raml/util-ex-value.go
new file mode 100644
index 0000000..9759417
--- /dev/null
+++ b/v0/internal/raml/util-ex-value.go
@@ -0,0 +1,31 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// hasValueFacet returns whether the given node is a mapping that contains the
+// key "value", which is what distinguishes an expanded example from an example
+// whose value is a mapping.
+func hasValueFacet(node *yaml.Node) bool {
+	if !xyml.IsMap(node) {
+		return false
+	}
+
+	for i := 0; i < len(node.Content); i += 2 {
+		if xyml.IsString(node.Content[i]) && node.Content[i].Value == rmeta.KeyValue {
+			return true
+		}
+	}
+
+	return false
+}
+
+// looksExpanded returns whether the given example value would be mistaken for
+// an expanded example if it was written in the short form.
+func looksExpanded(val interface{}) bool {
+	node, err := xyml.ToYamlNode(val)
+	return err == nil && node != nil && hasValueFacet(node)
+}
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f5de32e..1309915 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -118,8 +118,9 @@ func (e AnyExample) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *AnyExample) UnmarshalRAML(value *yaml.Node) error {
-
-	if xyml.IsMap(value) {
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +191,8 @@ func (e *AnyExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		e.value != nil && looksExpanded(*e.value)
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 968883c..cb78f3e 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -118,8 +118,9 @@ func (e CustomExample) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *CustomExample) UnmarshalRAML(value *yaml.Node) error {
-
-	if xyml.IsMap(value) {
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +191,8 @@ func (e *CustomExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		e.value != nil && looksExpanded(*e.value)
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index afcb076..0c2442c 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -118,8 +118,9 @@ func (e FileExample) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *FileExample) UnmarshalRAML(value *yaml.Node) error {
-
-	if xyml.IsMap(value) {
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +191,8 @@ func (e *FileExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		e.value != nil && looksExpanded(*e.value)
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index d474c9a..a49f359 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -118,8 +118,9 @@ func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *ObjectExample) UnmarshalRAML(value *yaml.Node) error {
-
-	if xyml.IsMap(value) {
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +191,8 @@ func (e *ObjectExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		e.value != nil && looksExpanded(*e.value)
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 996bc3c..a3e26a1 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -118,8 +118,9 @@ func (e UnionExample) ToYAML() (*yaml.Node, error) {
 }
 
 func (e *UnionExample) UnmarshalRAML(value *yaml.Node) error {
-
-	if xyml.IsMap(value) {
+	// The value may itself be a mapping, it is only an expanded example if it
+	// has the required "value" facet.
+	if hasValueFacet(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +191,8 @@ func (e *UnionExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		e.value != nil && looksExpanded(*e.value)
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-- 
2.43.0


From f95b5e8b68fd5980c5c9b8b270977d19914148f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 07/27] fix: write the xml facet

XML settings had no YAML form, so a document with a type using the xml facet
could not be written.  Their extra facets were dropped.
---
 v0/internal/raml/type-xml.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..8c91366 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -104,10 +104,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyName, x.name).
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +133,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 8115d075a4c6d932de4d06edd52699a2d4a731bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 08/27] fix: write documentation entries

Documentation had no YAML form, so an API with documentation could not be
written.
---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..795eda8 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d *Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From c52ac9d922a3ede15edf1def93258458043926f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 09/27] fix: write annotation values as plain mappings

They were written as ordered map sequences, which are rejected when the
document is read again.
---
 v0/internal/raml/APISpec.go       | 2 +-
 v0/internal/raml/Library.go       | 2 +-
 v0/internal/raml/annotation.go    | 2 +-
 v0/internal/raml/in-components.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index ffdd42c..b528545 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -381,7 +381,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index c4cfe3a..63451b2 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -229,7 +229,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && strings.HasPrefix(k.Value, "(") {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 3972c4e..5b9b0d4 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -29,7 +29,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
-- 
2.43.0


From 504c95323151483221c92bea3bee2daab03b0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 10/27] fix: write facet definitions as plain mappings

They were written as ordered map sequences, which are rejected when the
document is read again.
---
 v0/internal/raml/type-datatype-ext.go | 2 +-
 v0/internal/raml/type-facet.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..706f931 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 		required:       true,
 	}
 }
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
-- 
2.43.0


From 60f63c95f6bc25a295baf71ffdcba1183b8b4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 11/27] fix: keep the annotation types of a library

They were parsed into the library's annotations, leaving AnnotationTypes
empty and writing each of them as a top level key.
---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 63451b2..bb77652 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -213,7 +213,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 50b391e8f851d6208d2fe43d1badf36f80b50c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 12/27] fix: keep plain mapping output after unsetting a map
 facet

Unset methods replaced the map with one in ordered mode, so entries added
afterwards were written as an ordered map sequence that cannot be read back.
---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 16 ++++++++--------
 v0/internal/raml/Library.go                  | 10 +++++-----
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 33 files changed, 90 insertions(+), 90 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index d7b7cd6..c45b493 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -76,7 +76,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..d2aabe9 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index b528545..6644d4f 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -158,7 +158,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -175,7 +175,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -192,7 +192,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -209,7 +209,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -226,7 +226,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -243,7 +243,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -260,7 +260,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -291,7 +291,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index bb77652..544974d 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -49,7 +49,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -74,7 +74,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -91,7 +91,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -112,7 +112,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -129,7 +129,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 1309915..b28100b 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -74,7 +74,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 51797ad..64a1268 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -74,7 +74,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index b56fbb7..ed86b86 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -74,7 +74,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index cb78f3e..040d10c 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -74,7 +74,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index b8ee1b7..1f8e260 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -74,7 +74,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 81df991..93d0b6a 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -74,7 +74,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 3c7ec81..626058f 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -74,7 +74,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 0c2442c..f751738 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -74,7 +74,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index c25bcf1..bc2b2a2 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -74,7 +74,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index cd81b30..a9a573b 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -74,7 +74,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index a49f359..dfe2bab 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -74,7 +74,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index a515735..16e0731 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -74,7 +74,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index a8d5005..62d1110 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -74,7 +74,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index a3e26a1..5977eab 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -74,7 +74,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c06d25 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..aa686dc 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..01c67cb 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..d37a22c 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..2e16e06 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..6acefcc 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..7b5eb42 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..b509697 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..5eca6bd 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..59bb066 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..203b5ce 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6611bb6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..83e337c 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..7b0527c 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From 87cdb51423935717df4de0c72c756ebbfcbf4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 13/27] fix: write floating point facets without losing
 precision

Numeric facets, enum values, defaults and examples were rounded to ten digits
when written.
---
 v0/gen/example-m.tpl                   |  4 ++--
 v0/gen/type-m/extended.tpl             |  6 +++++-
 v0/gen/type-m/integer.tpl              |  2 +-
 v0/gen/type-m/number.tpl               |  6 +++---
 v0/internal/raml/util-float.go         | 26 ++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-number.go    |  4 ++--
 v0/internal/raml/x-gen-type-integer.go |  2 +-
 v0/internal/raml/x-gen-type-number.go  | 10 +++++-----
 8 files changed, 45 insertions(+), 15 deletions(-)
 create mode 100644 v0/internal/raml/util-float.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index c45b493..3f6da4c 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -141,7 +141,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, {{if eq .Type "float64"}}(*exactFloat)(e.value){{else}}e.value{{end}})
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
@@ -153,7 +153,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.PutIfNotNil("", e.value)
+	out.PutIfNotNil("", {{if eq .Type "float64"}}(*exactFloat)(e.value){{else}}e.value{{end}})
 	return true, nil
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index d2aabe9..82a3bbc 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -235,7 +235,11 @@ func (o *{{.Name}}Type) SetRequired(b bool) raml.{{.Name}}Type {
 
 func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.{{.Name}}Type.marshal")
+	{{if eq .DefTypeName "Float64" -}}
+	out.PutIfNotNil(rmeta.KeyDefault, (*exactFloat)(o.def))
+	{{- else -}}
 	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	{{- end}}
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
@@ -255,7 +259,7 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{- else if eq .Name "Datetime" -}}
 	{{template "datetime-marshal" $}}
 	{{- end}}
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+	out.PutIfNotNil(rmeta.KeyEnum, {{if eq .DefTypeName "Float64"}}exactFloats(o.enum){{else}}o.enum{{end}}).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
diff --git a/v0/gen/type-m/integer.tpl b/v0/gen/type-m/integer.tpl
index 5d14b40..c854c48 100644
--- a/v0/gen/type-m/integer.tpl
+++ b/v0/gen/type-m/integer.tpl
@@ -30,7 +30,7 @@ func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*exactFloat)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/gen/type-m/number.tpl b/v0/gen/type-m/number.tpl
index 6472793..c7f2559 100644
--- a/v0/gen/type-m/number.tpl
+++ b/v0/gen/type-m/number.tpl
@@ -28,9 +28,9 @@ type Bar struct {
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "number-marshal" -}}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMinimum, (*exactFloat)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*exactFloat)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*exactFloat)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/internal/raml/util-float.go b/v0/internal/raml/util-float.go
new file mode 100644
index 0000000..9f753c1
--- /dev/null
+++ b/v0/internal/raml/util-float.go
@@ -0,0 +1,26 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// exactFloat is a float that is written with as many digits as are needed to
+// read back the same value.
+type exactFloat float64
+
+func (f exactFloat) ToYAML() (*yaml.Node, error) {
+	return xyml.NewFloatNode(float64(f), 'g', -1), nil
+}
+
+func exactFloats(vals []float64) []exactFloat {
+	if vals == nil {
+		return nil
+	}
+
+	out := make([]exactFloat, len(vals))
+	for i, val := range vals {
+		out[i] = exactFloat(val)
+	}
+	return out
+}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index a9a573b..bb27b3c 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -130,7 +130,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, (*exactFloat)(e.value))
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
@@ -142,7 +142,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.PutIfNotNil("", e.value)
+	out.PutIfNotNil("", (*exactFloat)(e.value))
 	return true, nil
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 5eca6bd..d0f1a2b 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -251,7 +251,7 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*exactFloat)(o.multipleOf))
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 59bb066..ed137d6 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -243,16 +243,16 @@ func (o *NumberType) UnsetMultipleOf() raml.NumberType {
 
 func (o *NumberType) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.NumberType.marshal")
-	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	out.PutIfNotNil(rmeta.KeyDefault, (*exactFloat)(o.def))
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+		PutIfNotNil(rmeta.KeyMinimum, (*exactFloat)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*exactFloat)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*exactFloat)(o.multipleOf))
+	out.PutIfNotNil(rmeta.KeyEnum, exactFloats(o.enum)).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
-- 
2.43.0


From b5f91d563b57590446624bd5a07bfb0d289fd81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 14/27] fix: reject negative and accept large unsigned facet
 values

Negative values wrapped around to huge ones, and values above the int64 range
could be written but not read back.
---
 v0/internal/util/assign/uint.go | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..ff739b1 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,16 +1,42 @@
 package assign
 
 import (
+	"fmt"
+	"strconv"
+
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+const errNegativeUint = "expected a non-negative integer, got %s at %d:%d"
+
+// parseUint parses the full range of uint values from the given YAML node.
+func parseUint(v *yaml.Node) (uint, error) {
+	val, err := xyml.ToInt(v, 10)
+
+	if err == nil {
+		if val < 0 {
+			return 0, fmt.Errorf(errNegativeUint, v.Value, v.Line, v.Column)
+		}
+
+		return uint(val), nil
+	}
+
+	if xyml.IsInt(v) {
+		if big, e := strconv.ParseUint(v.Value, 10, strconv.IntSize); e == nil {
+			return uint(big), nil
+		}
+	}
+
+	return 0, err
+}
+
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	if val, err := parseUint(v); err != nil {
 		return err
 	} else {
-		*ptr = uint(val)
+		*ptr = val
 	}
 
 	return nil
@@ -18,11 +44,10 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 
 // Helper function for uint values in assign functions
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	if val, err := parseUint(v); err != nil {
 		return err
 	} else {
-		tmp := uint(val)
-		*ptr = &tmp
+		*ptr = &val
 	}
 
 	return nil
-- 
2.43.0


From 0e5a8bd8351f3e71cb7141f202a4276bf0f7ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 15/27] fix: write a single media type as a string

This is what the documentation of MediaTypes promises.
---
 v0/internal/raml/APISpec.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 6644d4f..a3d9c79 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -310,7 +310,7 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 		PutIfNotNil(rmeta.KeyBaseURI, a.baseURI).
 		PutIfNotNil(rmeta.KeyDescription, a.description).
 		PutIfNotNil(rmeta.KeyProtocols, a.protocols).
-		PutIfNotNil(rmeta.KeyMediaType, a.mediaType).
+		PutIfNotNil(rmeta.KeyMediaType, a.mediaTypeValue()).
 		PutIfNotNil(rmeta.KeyDocumentation, a.documentation).
 		PutIfNotNil(rmeta.KeySecuredBy, a.securedBy).
 		SerializeOrdered(false)
@@ -350,6 +350,15 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 	return out.ToYAML()
 }
 
+// mediaTypeValue returns the mediaType value to write, which is a plain string
+// if there is only one media type.
+func (a *APISpec) mediaTypeValue() interface{} {
+	if len(a.mediaType) == 1 {
+		return a.mediaType[0]
+	}
+	return a.mediaType
+}
+
 func (a *APISpec) UnmarshalYAML(raw *yaml.Node) error {
 	return xyml.MapForEach(raw, a.assign)
 }
-- 
2.43.0


From 72849b4252a8779a249db9024c1b935218d43a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 16/27] fix: make unordered JSON output of AnyMap deterministic

Keys that differ but print the same, such as 1 and "1", collide in the JSON
object; which value won depended on the hash map iteration order.
---
 v0/pkg/raml/AnyMap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..e54dac6 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -121,8 +121,8 @@ func (i implAnyMap) MarshalJSON() ([]byte, error) {
 	}
 
 	out := make(map[string]interface{}, len(i.index))
-	for k, v := range i.index {
-		out[fmt.Sprint(k)] = v
+	for j := range i.ordered {
+		out[fmt.Sprint(i.ordered[j].Key)] = i.ordered[j].Val
 	}
 
 	return json.Marshal(out)
-- 
2.43.0


From 4cd54f4e488d7d3828646d12ba5ae63fbca93710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 17/27] fix: accept whole numbers in number facets and examples

minimum: 1 or example: 5 on a number type were rejected because YAML calls
them integers.
---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 16 +++++++++++++++-
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 3f6da4c..eeb4c2b 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -226,7 +226,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 82a3bbc..a653913 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -291,7 +291,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index bb27b3c..f0f61a6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -194,7 +194,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index ed137d6..d5efb5f 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..bc35376 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -1,12 +1,26 @@
 package assign
 
 import (
+	"strconv"
+
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+// ToFloat parses the given YAML node as a float value.  A number written
+// without a fraction, which YAML considers to be an integer, is a valid float.
+func ToFloat(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		if val, err := strconv.ParseFloat(v.Value, 64); err == nil {
+			return val, nil
+		}
+	}
+
+	return xyml.ToFloat(v)
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From b58499057a4fbdd6acf8bb67a122fb913c0e666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 18/27] fix: parse the default facet of types

Default() was always empty for parsed types because the facet was kept among
the extra facets, where it also overrode the value of a later SetDefault.
---
 v0/gen/type-m/extended.tpl                   | 33 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  7 +++++
 v0/internal/raml/x-gen-type-array.go         | 11 +++++++
 v0/internal/raml/x-gen-type-bool.go          |  7 +++++
 v0/internal/raml/x-gen-type-custom.go        |  7 +++++
 v0/internal/raml/x-gen-type-date-only.go     |  7 +++++
 v0/internal/raml/x-gen-type-datetime-only.go |  7 +++++
 v0/internal/raml/x-gen-type-datetime.go      |  7 +++++
 v0/internal/raml/x-gen-type-file.go          |  7 +++++
 v0/internal/raml/x-gen-type-integer.go       |  7 +++++
 v0/internal/raml/x-gen-type-number.go        |  7 +++++
 v0/internal/raml/x-gen-type-object.go        |  7 +++++
 v0/internal/raml/x-gen-type-string.go        |  7 +++++
 v0/internal/raml/x-gen-type-time-only.go     |  7 +++++
 v0/internal/raml/x-gen-type-union.go         |  7 +++++
 15 files changed, 135 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index a653913..dfa6844 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -86,11 +86,13 @@ func (o *{{.Name}}Type) Default() {{if .DefIsOpt}}option.{{end}}{{.DefTypeName}}
 
 func (o *{{.Name}}Type) SetDefault(i {{.DefType}}) raml.{{.Name}}Type {
 	o.def = {{if .IsDefPtr}}&{{end}}i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *{{.Name}}Type) UnsetDefault() raml.{{.Name}}Type {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -308,6 +310,37 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		{{if eq .DefTypeName "Bool" -}}
+		if err := assign.AsBoolPtr(val, &o.def); err == nil {
+			return nil
+		}
+		{{- else if eq .DefTypeName "Int64" -}}
+		if err := assign.AsInt64Ptr(val, &o.def); err == nil {
+			return nil
+		}
+		{{- else if eq .DefTypeName "Float64" -}}
+		if err := assign.AsFloat64Ptr(val, &o.def); err == nil {
+			return nil
+		}
+		{{- else if eq .DefTypeName "String" -}}
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
+		{{- else if .IsDefPtr -}}
+		var def {{.DefType}} = val
+		o.def = &def
+		return nil
+		{{- else -}}
+		if xyml.IsSequence(val) {
+			o.def = make({{.DefType}}, 0, len(val.Content))
+			return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+				o.def = append(o.def, cur)
+				return nil
+			})
+		}
+		{{- end}}
 	}
 	{{if eq .Name "Object" -}}
 	{{template "object-assign" $}}
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c06d25..6e86504 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -50,11 +50,13 @@ func (o *AnyType) Default() option.Untyped {
 
 func (o *AnyType) SetDefault(i interface{}) raml.AnyType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *AnyType) UnsetDefault() raml.AnyType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -222,6 +224,11 @@ func (o *AnyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		var def interface{} = val
+		o.def = &def
+		return nil
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index aa686dc..2e88e8a 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -57,11 +57,13 @@ func (o *ArrayType) Default() []interface{} {
 
 func (o *ArrayType) SetDefault(i []interface{}) raml.ArrayType {
 	o.def = i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *ArrayType) UnsetDefault() raml.ArrayType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -284,6 +286,15 @@ func (o *ArrayType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if xyml.IsSequence(val) {
+			o.def = make([]interface{}, 0, len(val.Content))
+			return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+				o.def = append(o.def, cur)
+				return nil
+			})
+		}
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 01c67cb..b4b6bec 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -50,11 +50,13 @@ func (o *BoolType) Default() option.Bool {
 
 func (o *BoolType) SetDefault(i bool) raml.BoolType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *BoolType) UnsetDefault() raml.BoolType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -227,6 +229,11 @@ func (o *BoolType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsBoolPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index d37a22c..d3cc000 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -50,11 +50,13 @@ func (o *CustomType) Default() option.Untyped {
 
 func (o *CustomType) SetDefault(i interface{}) raml.CustomType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *CustomType) UnsetDefault() raml.CustomType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -222,6 +224,11 @@ func (o *CustomType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		var def interface{} = val
+		o.def = &def
+		return nil
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 2e16e06..962b739 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -50,11 +50,13 @@ func (o *DateOnlyType) Default() option.String {
 
 func (o *DateOnlyType) SetDefault(i string) raml.DateOnlyType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *DateOnlyType) UnsetDefault() raml.DateOnlyType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -227,6 +229,11 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 6acefcc..4eb08a9 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -50,11 +50,13 @@ func (o *DatetimeOnlyType) Default() option.String {
 
 func (o *DatetimeOnlyType) SetDefault(i string) raml.DatetimeOnlyType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *DatetimeOnlyType) UnsetDefault() raml.DatetimeOnlyType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -227,6 +229,11 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 7b5eb42..f051609 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -51,11 +51,13 @@ func (o *DatetimeType) Default() option.String {
 
 func (o *DatetimeType) SetDefault(i string) raml.DatetimeType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *DatetimeType) UnsetDefault() raml.DatetimeType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -242,6 +244,11 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	if key.Value == rmeta.KeyFormat {
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index b509697..692de56 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -56,11 +56,13 @@ func (o *FileType) Default() option.Untyped {
 
 func (o *FileType) SetDefault(i interface{}) raml.FileType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *FileType) UnsetDefault() raml.FileType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -268,6 +270,11 @@ func (o *FileType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		var def interface{} = val
+		o.def = &def
+		return nil
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index d0f1a2b..0bc15cd 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -54,11 +54,13 @@ func (o *IntegerType) Default() option.Int64 {
 
 func (o *IntegerType) SetDefault(i int64) raml.IntegerType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *IntegerType) UnsetDefault() raml.IntegerType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -290,6 +292,11 @@ func (o *IntegerType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsInt64Ptr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index d5efb5f..3cb88bc 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -54,11 +54,13 @@ func (o *NumberType) Default() option.Float64 {
 
 func (o *NumberType) SetDefault(i float64) raml.NumberType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *NumberType) UnsetDefault() raml.NumberType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -289,6 +291,11 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsFloat64Ptr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 203b5ce..a0e7717 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -59,11 +59,13 @@ func (o *ObjectType) Default() option.Untyped {
 
 func (o *ObjectType) SetDefault(i interface{}) raml.ObjectType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *ObjectType) UnsetDefault() raml.ObjectType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -325,6 +327,11 @@ func (o *ObjectType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		var def interface{} = val
+		o.def = &def
+		return nil
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6611bb6..58769bf 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -55,11 +55,13 @@ func (o *StringType) Default() option.String {
 
 func (o *StringType) SetDefault(i string) raml.StringType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *StringType) UnsetDefault() raml.StringType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -273,6 +275,11 @@ func (o *StringType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	switch key.Value {
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 83e337c..4f0dec6 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -50,11 +50,13 @@ func (o *TimeOnlyType) Default() option.String {
 
 func (o *TimeOnlyType) SetDefault(i string) raml.TimeOnlyType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *TimeOnlyType) UnsetDefault() raml.TimeOnlyType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -227,6 +229,11 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		if err := assign.AsStringPtr(val, &o.def); err == nil {
+			return nil
+		}
 	}
 
 	return o.ExtendedDataType.assign(key, val)
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 7b0527c..949cb72 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -50,11 +50,13 @@ func (o *UnionType) Default() option.Untyped {
 
 func (o *UnionType) SetDefault(i interface{}) raml.UnionType {
 	o.def = &i
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
 func (o *UnionType) UnsetDefault() raml.UnionType {
 	o.def = nil
+	o.hasExtra.mp.Delete(rmeta.KeyDefault)
 	return o
 }
 
@@ -222,6 +224,11 @@ func (o *UnionType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyRequired:
 		return assign.AsBool(val, &o.required)
+	case rmeta.KeyDefault:
+		// A default that does not match the type is kept as an extra facet.
+		var def interface{} = val
+		o.def = &def
+		return nil
 	}
 
 	return o.ExtendedDataType.assign(key, val)
-- 
2.43.0


From eedee549097ea6fffc96891800554c9ad04361b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 19/27] fix: accept empty type declarations

A declaration without a value is a string type, as the error message says,
but the check looked for a nil node instead of a null one.
---
 v0/internal/raml/fn-sorting-hat-type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..ec01c09 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -50,7 +50,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if util.IsNil(val) || xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From 57667296bbead8539dfbf64ad2c9f9060b5083f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 20/27] fix: accept an !include as the type of an expanded
 declaration

The declaration was recognised as an include but then rejected because the
tagged value is not a plain string.
---
 v0/internal/raml/DataType.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 310da2a..35ab9b4 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -116,7 +116,9 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
-		if err := xyml.RequireString(val); err != nil {
+		if d.kind == rmeta.TypeInclude && val.Tag == "!include" {
+			d.schema = val.Value
+		} else if err := xyml.RequireString(val); err != nil {
 			return err
 		} else {
 			d.schema = val.Value
-- 
2.43.0


From 5aa5e403b9ae18a743cbfb688ac7c8457782007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:11 +0000
Subject: [PATCH 21/27] fix: report read errors that occur inside of comments

---
 v0/pkg/raml/rparse/decode.go    | 23 +++++++++++++++++++++++
 v0/pkg/raml/rparse/parse-api.go |  4 +---
 v0/pkg/raml/rparse/parse-lib.go |  4 +---
 3 files changed, 25 insertions(+), 6 deletions(-)
 create mode 100644 v0/pkg/raml/rparse/decode.go

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
new file mode 100644
index 0000000..b647670
--- /dev/null
+++ b/v0/pkg/raml/rparse/decode.go
@@ -0,0 +1,23 @@
+package rparse
+
+import (
+	"bytes"
+	"io"
+	"io/ioutil"
+
+	"gopkg.in/yaml.v3"
+)
+
+// decode reads the given source to its end and parses the YAML document in it
+// into the given value.
+//
+// The source is read completely before it is parsed as the YAML parser does not
+// report read errors it runs into in the middle of a comment.
+func decode(red io.Reader, out interface{}) error {
+	raw, err := ioutil.ReadAll(red)
+	if err != nil {
+		return err
+	}
+
+	return yaml.NewDecoder(bytes.NewReader(raw)).Decode(out)
+}
diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index cf1e7bd..10b9dc5 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -2,7 +2,6 @@ package rparse
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
@@ -10,9 +9,8 @@ import (
 
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil {
+	if err := decode(red, out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index e4262fc..23ef193 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -3,15 +3,13 @@ package rparse
 import (
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil && err != io.EOF {
+	if err := decode(red, out); err != nil && err != io.EOF {
 		return nil, err
 	}
 
-- 
2.43.0


From 09c19dc12c95375c483eb6fdaa7765df0210d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 22/27] fix: return an error for malformed input the YAML
 parser panics on

---
 v0/pkg/raml/rparse/decode.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
index b647670..22048a0 100644
--- a/v0/pkg/raml/rparse/decode.go
+++ b/v0/pkg/raml/rparse/decode.go
@@ -2,6 +2,7 @@ package rparse
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/ioutil"
 
@@ -19,5 +20,24 @@ func decode(red io.Reader, out interface{}) error {
 		return err
 	}
 
+	return unmarshal(raw, out)
+}
+
+// unmarshal parses the given YAML document.
+//
+// The YAML parser reports some malformed inputs, such as invalid characters in
+// comments, by panicking with an "internal error" message.  Those are returned
+// as errors.
+func unmarshal(raw []byte, out interface{}) (err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			msg, ok := rec.(string)
+			if !ok {
+				panic(rec)
+			}
+			err = fmt.Errorf("yaml: %s", msg)
+		}
+	}()
+
 	return yaml.NewDecoder(bytes.NewReader(raw)).Decode(out)
 }
-- 
2.43.0


From 2c7127de39059f96ba9408a15ec55d7018e0af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 23/27] fix: GetOpt no longer panics on entries with a nil
 value

Putting nil into an any, untyped or example map is allowed, but asking for the
entry as an option panicked.
---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..d2252e6 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -197,7 +197,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index e54dac6..4ca41da 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -197,7 +197,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..654b327 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -197,7 +197,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
-- 
2.43.0


From 599e1e9b2e8365198e83e3affeea0c56321059b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 24/27] fix: return an error for every panic of the YAML parser

Misplaced comments make the parser fail with a runtime error instead of an
internal error message.
---
 v0/pkg/raml/rparse/decode.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
index 22048a0..19f2521 100644
--- a/v0/pkg/raml/rparse/decode.go
+++ b/v0/pkg/raml/rparse/decode.go
@@ -20,24 +20,29 @@ func decode(red io.Reader, out interface{}) error {
 		return err
 	}
 
-	return unmarshal(raw, out)
+	doc, err := parse(raw)
+	if err != nil {
+		return err
+	}
+
+	return doc.Decode(out)
 }
 
-// unmarshal parses the given YAML document.
+// parse parses the given YAML document.
 //
-// The YAML parser reports some malformed inputs, such as invalid characters in
-// comments, by panicking with an "internal error" message.  Those are returned
-// as errors.
-func unmarshal(raw []byte, out interface{}) (err error) {
+// The YAML parser panics on some malformed inputs, such as invalid characters
+// in comments or misplaced comments in sequences.  Those are returned as errors.
+func parse(raw []byte) (doc *yaml.Node, err error) {
 	defer func() {
 		if rec := recover(); rec != nil {
-			msg, ok := rec.(string)
-			if !ok {
-				panic(rec)
-			}
-			err = fmt.Errorf("yaml: %s", msg)
+			doc, err = nil, fmt.Errorf("yaml: %v", rec)
 		}
 	}()
 
-	return yaml.NewDecoder(bytes.NewReader(raw)).Decode(out)
+	doc = new(yaml.Node)
+	if err := yaml.NewDecoder(bytes.NewReader(raw)).Decode(doc); err != nil {
+		return nil, err
+	}
+
+	return doc, nil
 }
-- 
2.43.0


From b01496d051765404a7cb6def0d32a594b46f6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 25/27] fix: keep documentation titles and contents that are
 not plain strings

The content of a documentation entry is usually an !include, which was written
back as a plain string.  Aliases were taken for the name of their anchor.
---
 v0/internal/raml/Documentation.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 795eda8..de49b04 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -15,6 +15,11 @@ type Documentation struct {
 	title   string
 	content string
 	extra   raml.AnyMap
+
+	// The nodes the title and the content were read from, if those are something
+	// else than plain strings (`content: !include intro.md`, for example).
+	titleNode   *yaml.Node
+	contentNode *yaml.Node
 }
 
 func (d *Documentation) Title() string {
@@ -22,7 +27,7 @@ func (d *Documentation) Title() string {
 }
 
 func (d *Documentation) SetTitle(title string) raml.Documentation {
-	d.title = title
+	d.title, d.titleNode = title, nil
 	return d
 }
 
@@ -31,7 +36,7 @@ func (d *Documentation) Content() string {
 }
 
 func (d *Documentation) SetContent(content string) raml.Documentation {
-	d.content = content
+	d.content, d.contentNode = content, nil
 	return d
 }
 
@@ -42,6 +47,12 @@ func (d *Documentation) ExtraFacets() raml.AnyMap {
 func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	out.Put(rmeta.KeyTitle, d.title).
 		Put(rmeta.KeyContent, d.content)
+	if d.titleNode != nil {
+		out.ReplaceIfExists(rmeta.KeyTitle, d.titleNode)
+	}
+	if d.contentNode != nil {
+		out.ReplaceIfExists(rmeta.KeyContent, d.contentNode)
+	}
 	d.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 	return false, nil
 }
@@ -58,9 +69,9 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			d.title, d.titleNode = stringOrNode(v)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			d.content, d.contentNode = stringOrNode(v)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
@@ -71,3 +82,15 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 		return nil
 	})
 }
+
+// stringOrNode returns the text of the given node, and the node itself if it is
+// something else than a plain string.
+func stringOrNode(v *yaml.Node) (string, *yaml.Node) {
+	if v.Kind == yaml.AliasNode {
+		v = v.Alias
+	}
+	if xyml.IsString(v) {
+		return v.Value, nil
+	}
+	return v.Value, v
+}
-- 
2.43.0


From 6e3d1e6fb00bc51bb87dafd4ef02de65290f57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 26/27] fix: write documents with aliases so that they can be
 read back

The parts of a document are not written in the order they are read in, so that
an alias could end up before its anchor, without it, or behind another anchor of
the same name.
---
 v0/internal/raml/APISpec.go    |  7 ++++-
 v0/internal/raml/Library.go    |  7 ++++-
 v0/internal/raml/util-alias.go | 56 ++++++++++++++++++++++++++++++++++
 3 files changed, 68 insertions(+), 2 deletions(-)
 create mode 100644 v0/internal/raml/util-alias.go

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index a3d9c79..1f214ad 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -347,7 +347,12 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 		out.Put(rmeta.KeyTypes, a.types)
 	}
 
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil {
+		return nil, err
+	}
+
+	return resolveAliases(node), nil
 }
 
 // mediaTypeValue returns the mediaType value to write, which is a plain string
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 544974d..35b151a 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -207,7 +207,12 @@ func (l Library) MarshalYAML() (interface{}, error) {
 		out.Put(rmeta.KeyTypes, l.types)
 	}
 
-	return out, nil
+	node, err := out.ToYAML()
+	if err != nil {
+		return nil, err
+	}
+
+	return resolveAliases(node), nil
 }
 
 func (l *Library) assign(k, v *yaml.Node) error {
diff --git a/v0/internal/raml/util-alias.go b/v0/internal/raml/util-alias.go
new file mode 100644
index 0000000..24d729b
--- /dev/null
+++ b/v0/internal/raml/util-alias.go
@@ -0,0 +1,56 @@
+package raml
+
+import "gopkg.in/yaml.v3"
+
+// resolveAliases returns the given YAML tree with every alias that would be
+// written before its anchor, without its anchor, or behind another anchor of
+// the same name replaced by the node it refers to.
+//
+// The parts of a document are not written in the order they were read in, and
+// anchors of values that are not kept as YAML nodes are lost.
+//
+// The given tree is not modified, as parts of it belong to the document.
+func resolveAliases(node *yaml.Node) *yaml.Node {
+	res := aliasResolver{make(map[string]*yaml.Node), make(map[*yaml.Node]bool)}
+	return res.resolve(node)
+}
+
+type aliasResolver struct {
+	// defined contains the node each anchor stands for at the current position.
+	defined map[string]*yaml.Node
+
+	// open contains the nodes around the current position.
+	open map[*yaml.Node]bool
+}
+
+func (a aliasResolver) resolve(node *yaml.Node) *yaml.Node {
+	if node.Kind == yaml.AliasNode {
+		target := node.Alias
+		if target == nil || target.Anchor != node.Value || a.defined[node.Value] == target || a.open[target] {
+			return node
+		}
+
+		node = target
+	}
+
+	if node.Anchor != "" {
+		a.defined[node.Anchor] = node
+	}
+
+	a.open[node] = true
+	defer delete(a.open, node)
+
+	out := node
+	for i, child := range node.Content {
+		if tmp := a.resolve(child); tmp != child {
+			if out == node {
+				out = new(yaml.Node)
+				*out = *node
+				out.Content = append([]*yaml.Node(nil), node.Content...)
+			}
+			out.Content[i] = tmp
+		}
+	}
+
+	return out
+}
-- 
2.43.0


From 58bfbf2b2f20489947f23514348e17efbcb3f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 27/27] fix: ToRAML of a data type panicked instead of
 returning its RAML text

---
 v0/internal/raml/DataType.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 35ab9b4..b2fbe2d 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
@@ -60,7 +61,19 @@ func (d *DataType) Required() bool {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	node, err := d.ToYAML()
+	if err != nil {
+		return "", err
+	}
+
+	var out strings.Builder
+	enc := yaml.NewEncoder(&out)
+	enc.SetIndent(2)
+	if err := enc.Encode(resolveAliases(node)); err != nil {
+		return "", err
+	}
+
+	return out.String(), nil
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0

