From 0366fa1baae6769b12911211b7b7224a75df1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 01/33] fix: import a service once when it is reached over
 several import paths

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..2d30d1b 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From d3762e384a3d33cccec01f270f77ae7504941cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 02/33] fix: do not take a NUL within a RIDL file for its end

---
 schema/ridl/lexer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..9db0668 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -170,10 +170,6 @@ func isTokenType(tt tokenType) func(r rune) bool {
 	}
 }
 
-func isEmpty(r rune) bool {
-	return r == empty
-}
-
 func isWordBreak(r rune) bool {
 	for i := range wordBreak {
 		if r == wordBreak[i] {
@@ -328,7 +324,8 @@ func lexDefaultState(lx *lexer) lexState {
 	r := lx.peek()
 
 	switch {
-	case isEmpty(r):
+	case lx.pos >= lx.length:
+		// only the end of the input ends the lexer, a NUL within it does not.
 		return nil
 
 	case isQuote(r):
-- 
2.43.0


From 9990efd91310e0c7bdcf522dccf314a86fffe063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 03/33] fix: report a map key or a missing type that is not
 resolved instead of a nil dereference

---
 schema/var_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..64c1503 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
@@ -139,7 +139,7 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 			}
 		} else {
 			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			if t == nil || t.Kind != "enum" && (t.Type == nil || t.Type.Type != T_Enum) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
-- 
2.43.0


From e6e4eb0c2976b47946e9dbfed5febe406e0dfc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 04/33] fix: report null entries of a JSON schema instead of a
 nil dereference

---
 schema/schema.go  | 20 ++++++++++++++++++++
 schema/service.go | 15 +++++++++++++++
 schema/type.go    |  3 +++
 3 files changed, 38 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..1ac7ce1 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -29,6 +29,9 @@ type WebRPCSchema struct {
 // Validate validates the schema through the AST, intended to be called after
 // the json has been unmarshalled
 func (s *WebRPCSchema) Validate() error {
+	if s == nil {
+		return fmt.Errorf("schema error: schema cannot be empty")
+	}
 	if s.WebrpcVersion != SCHEMA_VERSION {
 		return fmt.Errorf("webrpc schema version, '%s' is invalid, try '%s'", s.WebrpcVersion, SCHEMA_VERSION)
 	}
@@ -66,6 +69,23 @@ func (s *WebRPCSchema) Validate() error {
 		}
 	}
 
+	// null entries of a JSON schema
+	for i, t := range s.Types {
+		if t == nil {
+			return fmt.Errorf("schema error: type %d cannot be null", i)
+		}
+	}
+	for i, e := range s.Errors {
+		if e == nil {
+			return fmt.Errorf("schema error: error %d cannot be null", i)
+		}
+	}
+	for i, svc := range s.Services {
+		if svc == nil {
+			return fmt.Errorf("schema error: service %d cannot be null", i)
+		}
+	}
+
 	for i := range s.Types {
 		err := s.Types[i].Parse(s)
 		if err != nil {
diff --git a/schema/service.go b/schema/service.go
index 03907e3..c001497 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -73,6 +73,9 @@ func (s *Service) Parse(schema *WebRPCSchema) error {
 	// Verify method names and ensure we don't have any duplicate method names
 	methodList := map[string]string{}
 	for _, method := range s.Methods {
+		if method == nil {
+			return fmt.Errorf("schema error: detected null method in service '%s'", serviceName)
+		}
 		if string(method.Name) == "" {
 			return fmt.Errorf("schema error: detected empty method name in service '%s", serviceName)
 		}
@@ -104,11 +107,20 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 	m.Service = service // back-ref
 	serviceName := service.Name
 
+	for _, annotation := range m.Annotations {
+		if annotation == nil {
+			return fmt.Errorf("schema error: detected null annotation for method '%s' in service '%s'", m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate inputs
 	if len(m.Inputs) > 1 && m.Succinct {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, input := range m.Inputs {
+		if input == nil {
+			return fmt.Errorf("schema error: detected null input argument for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		input.InputArg = true // back-ref
 		if input.Name == "" {
 			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
@@ -124,6 +136,9 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
 	for _, output := range m.Outputs {
+		if output == nil {
+			return fmt.Errorf("schema error: detected null output for method '%s' in service '%s'", m.Name, serviceName)
+		}
 		output.OutputArg = true // back-ref
 		if output.Name == "" {
 			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
diff --git a/schema/type.go b/schema/type.go
index 9c01264..5746094 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -75,6 +75,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 	fieldList := map[string]string{}
 	jsonFieldList := map[string]string{}
 	for _, field := range t.Fields {
+		if field == nil {
+			return fmt.Errorf("schema error: detected null field in type '%s'", typName)
+		}
 		if string(field.Name) == "" {
 			return fmt.Errorf("schema error: detected empty field name in type '%s", typName)
 		}
-- 
2.43.0


From 2e3578207c30c6fc44707d2b80c83f241094e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 05/33] fix: reject an @ without annotation name instead of
 parsing it for ever

---
 schema/ridl/service_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..ec6ccf8 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -192,6 +192,10 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 	for {
 		annotationMatches, err := p.match(matcher...)
 		if err != nil {
+			if len(annotations) == 0 {
+				// nothing was consumed, the caller would try the same token for ever
+				return nil, err
+			}
 			break
 		}
 
-- 
2.43.0


From 7a1a46814e2637dc04b3ad611bc42e495adb3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/33] fix: join and sort dictionaries in a fixed order in
 templates

---
 gen/funcmap_string.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..cbf8fd4 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -23,9 +24,15 @@ func toString(v interface{}) string {
 	case string:
 		return t
 	case map[string]interface{}:
+		keys := make([]string, 0, len(t))
+		for k := range t {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range keys {
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From 0f42fbfd42dadb370b855d9a0b67e6e2e3125c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 07/33] fix: do not write the default base path into the schema
 of the caller

---
 gen/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gen/gen.go b/gen/gen.go
index d3494a1..e1de477 100644
--- a/gen/gen.go
+++ b/gen/gen.go
@@ -46,7 +46,10 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 	}()
 
 	if proto.BasePath == "" && len(proto.Services) > 0 {
-		proto.BasePath = "/rpc/"
+		// The schema belongs to the caller, who may share it, so the default goes into a copy.
+		withBasePath := *proto
+		withBasePath.BasePath = "/rpc/"
+		proto = &withBasePath
 	}
 
 	// Generate deterministic schema hash of the proto file
-- 
2.43.0


From 81a673417a516a64a49ec646a321a6286dfd147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 08/33] fix: fail fetching templates when a download fails

---
 gen/template_source.go | 81 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..1eef0ea 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -4,11 +4,13 @@ import (
 	"context"
 	"fmt"
 	"hash/fnv"
+	"io"
 	"net/http"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"text/template"
 	"time"
 
@@ -104,7 +106,7 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
 		s.TmplVersion = s.target
 		// fetch from remote git
-		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+		sourceFS, err = fetchTemplates(s.target)
 		if err != nil {
 			s.CacheRefreshErr = err
 			// load from cache, if available
@@ -141,6 +143,83 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	return tmpl, nil
 }
 
+// fetchTemplates gets the template files of the target from remote git.
+func fetchTemplates(target string) (http.FileSystem, error) {
+	// gitfs drops the errors of prefetching and goes on with the files it got, so we collect them below it.
+	transport := &fetchTransport{}
+	client := &http.Client{
+		Transport: transport,
+		CheckRedirect: func(req *http.Request, via []*http.Request) error {
+			if len(via) >= 10 {
+				return transport.failed(fmt.Errorf("%s: stopped after 10 redirects", via[0].URL))
+			}
+			return nil
+		},
+	}
+	remoteFS, err := gitfs.New(context.Background(), target, gitfs.OptClient(client), gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+	if err != nil {
+		return nil, err
+	}
+	if err := transport.firstErr(); err != nil {
+		return nil, err
+	}
+	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
+	if err != nil {
+		return nil, err
+	}
+	if len(filenames) == 0 {
+		return nil, fmt.Errorf("no template files were found in target %s", target)
+	}
+	return remoteFS, nil
+}
+
+// fetchTransport is a http.RoundTripper that keeps the first failure.
+type fetchTransport struct {
+	mu  sync.Mutex
+	err error
+}
+
+func (t *fetchTransport) failed(err error) error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.err == nil {
+		t.err = err
+	}
+	return err
+}
+
+func (t *fetchTransport) firstErr() error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.err
+}
+
+func (t *fetchTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	resp, err := http.DefaultTransport.RoundTrip(req)
+	if err != nil {
+		return nil, t.failed(err)
+	}
+	redirect := resp.StatusCode/100 == 3 && resp.Header.Get("Location") != ""
+	if resp.StatusCode != http.StatusOK && !redirect {
+		t.failed(fmt.Errorf("%s %s: got status %d", req.Method, req.URL, resp.StatusCode))
+	}
+	resp.Body = &fetchBody{ReadCloser: resp.Body, transport: t}
+	return resp, nil
+}
+
+type fetchBody struct {
+	io.ReadCloser
+	transport *fetchTransport
+}
+
+func (b *fetchBody) Read(p []byte) (int, error) {
+	n, err := b.ReadCloser.Read(p)
+	if err != nil && err != io.EOF {
+		b.transport.failed(err)
+	}
+	return n, err
+}
+
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
 	// create empty cache directory
 	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-- 
2.43.0


From c9f462a8084af75c04f85f77cc601f5306ba1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 09/33] fix: write and read the template cache as a whole

---
 gen/template_source.go | 168 +++++++++++++++++++++++++++--------------
 1 file changed, 113 insertions(+), 55 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 1eef0ea..b367a82 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -2,12 +2,15 @@ package gen
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -15,8 +18,6 @@ import (
 	"time"
 
 	"github.com/posener/gitfs"
-	"github.com/shurcooL/httpfs/path/vfspath"
-	"github.com/shurcooL/httpfs/text/vfstemplate"
 	"github.com/shurcooL/httpfs/vfsutil"
 	"github.com/webrpc/webrpc/schema"
 )
@@ -98,53 +99,48 @@ func (s *TemplateSource) loadTemplates() (*template.Template, error) {
 
 func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	var err error
-	var sourceFS http.FileSystem
+	var files []templateFile
 
-	cacheAvailable, cacheDir, cacheFS, cacheAge := s.openCacheDir()
+	cacheAvailable, cacheDir, cacheFiles, cacheAge := s.openCacheDir()
 	s.TmplDir = cacheDir
+	s.TmplVersion = s.target
 
 	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
-		s.TmplVersion = s.target
 		// fetch from remote git
-		sourceFS, err = fetchTemplates(s.target)
+		files, err = fetchTemplates(s.target)
 		if err != nil {
 			s.CacheRefreshErr = err
 			// load from cache, if available
 			if cacheAvailable {
-				sourceFS = cacheFS
+				files = cacheFiles
 				s.CacheAge = cacheAge
 			} else {
 				return nil, fmt.Errorf("failed to fetch from remote git: %w", err)
 			}
 		} else {
 			// cache remote git
-			if err := s.cacheTemplates(s.target, sourceFS, cacheDir); err != nil {
+			if err := s.cacheTemplates(s.target, files, cacheDir); err != nil {
 				s.CacheRefreshErr = err
 			}
 		}
 	} else {
 		// load from cache
-		sourceFS = cacheFS
+		files = cacheFiles
 		s.CacheAge = cacheAge
 	}
 
-	// read template version info
-	if cacheAvailable && s.TmplVersion == "" {
-		tmplVersion, _ := os.ReadFile(filepath.Join(cacheDir, templateCacheInfoFilename))
-		s.TmplVersion = strings.TrimSpace(string(tmplVersion))
-	}
-
 	// parse the template files from the source
-	tmpl, err := vfstemplate.ParseGlob(sourceFS, s.tmpl, "/*.go.tmpl")
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse templates: %w", err)
+	for _, file := range files {
+		if _, err := s.tmpl.New(file.name).Parse(string(file.data)); err != nil {
+			return nil, fmt.Errorf("failed to parse templates: %w", err)
+		}
 	}
 
-	return tmpl, nil
+	return s.tmpl, nil
 }
 
 // fetchTemplates gets the template files of the target from remote git.
-func fetchTemplates(target string) (http.FileSystem, error) {
+func fetchTemplates(target string) ([]templateFile, error) {
 	// gitfs drops the errors of prefetching and goes on with the files it got, so we collect them below it.
 	transport := &fetchTransport{}
 	client := &http.Client{
@@ -163,14 +159,40 @@ func fetchTemplates(target string) (http.FileSystem, error) {
 	if err := transport.firstErr(); err != nil {
 		return nil, err
 	}
-	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
+	files, err := readTemplates(remoteFS)
 	if err != nil {
 		return nil, err
 	}
-	if len(filenames) == 0 {
+	if len(files) == 0 {
 		return nil, fmt.Errorf("no template files were found in target %s", target)
 	}
-	return remoteFS, nil
+	return files, nil
+}
+
+type templateFile struct {
+	name string
+	data []byte
+}
+
+// readTemplates reads the template files in the root directory of a file system.
+func readTemplates(fs http.FileSystem) ([]templateFile, error) {
+	infos, err := vfsutil.ReadDir(fs, "/")
+	if err != nil {
+		return nil, err
+	}
+	var files []templateFile
+	for _, info := range infos {
+		if ok, _ := path.Match("*.go.tmpl", info.Name()); !ok {
+			continue
+		}
+		data, err := vfsutil.ReadFile(fs, "/"+info.Name())
+		if err != nil {
+			return nil, err
+		}
+		files = append(files, templateFile{name: info.Name(), data: data})
+	}
+	sort.Slice(files, func(i, j int) bool { return files[i].name < files[j].name })
+	return files, nil
 }
 
 // fetchTransport is a http.RoundTripper that keeps the first failure.
@@ -220,40 +242,30 @@ func (b *fetchBody) Read(p []byte) (int, error) {
 	return n, err
 }
 
-func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
+func (s *TemplateSource) cacheTemplates(target string, files []templateFile, cacheDir string) error {
+	if err := os.MkdirAll(filepath.Dir(cacheDir), 0755); err != nil {
+		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
 
-	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
+	// write the files to a new directory first, because other processes may be using the cache,
+	// and we may fail half-way
+	newDir, err := os.MkdirTemp(filepath.Dir(cacheDir), filepath.Base(cacheDir)+".new-")
 	if err != nil {
-		return err
-	}
-
-	if len(filenames) == 0 {
-		return fmt.Errorf("no template files were found in target %s", target)
-	}
-
-	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
+	defer os.RemoveAll(newDir)
+	if err := os.Chmod(newDir, 0755); err != nil {
+		return err
+	}
 
-	for _, filename := range filenames {
-		data, err := vfsutil.ReadFile(remoteFS, filename)
-		if err != nil {
-			return err
-		}
-
-		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
+	for _, file := range files {
+		err = os.WriteFile(filepath.Join(newDir, file.name), file.data, 0755)
 		if err != nil {
 			return err
 		}
 	}
 
-	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
+	err = os.WriteFile(filepath.Join(newDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
 	if err != nil {
 		return err
 	}
@@ -261,15 +273,36 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 	now := time.Now()
 	data := []byte(fmt.Sprintf("%d", now.Unix()))
 
-	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
+	err = os.WriteFile(filepath.Join(newDir, templateCacheTimestampFilename), data, 0755)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	return replaceDir(newDir, cacheDir)
+}
+
+// replaceDir puts newDir in place of dir, which may exist.
+func replaceDir(newDir, dir string) error {
+	oldDir := newDir + ".old"
+	defer os.RemoveAll(oldDir)
+
+	var err error
+	for i := 0; i < 10; i++ {
+		if err = os.Rename(dir, oldDir); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+		if err = os.Rename(newDir, dir); err == nil {
+			return nil
+		}
+		// either another process was faster, or there is a problem, then we keep what we had
+		if os.Rename(oldDir, dir) != nil {
+			os.RemoveAll(oldDir)
+		}
+	}
+	return err
 }
 
-func (s *TemplateSource) openCacheDir() (bool, string, http.FileSystem, time.Duration) {
+func (s *TemplateSource) openCacheDir() (bool, string, []templateFile, time.Duration) {
 	cacheDir, _ := s.getTmpCacheDir()
 	if cacheDir == "" {
 		// unable to find OS temp dir, but we don't error -- although
@@ -277,21 +310,46 @@ func (s *TemplateSource) openCacheDir() (bool, string, http.FileSystem, time.Dur
 		return false, "", nil, 0
 	}
 
-	// convert local fs to http filesystem
-	cacheFS := http.Dir(cacheDir)
-
 	// read cache timestamp file to determine availability
 	available := false
 	ts := int64(0)
-	b, _ := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename)
-	if len(b) > 0 {
+	info, b, files, err := readCacheDir(cacheDir)
+	if err == nil && strings.TrimSpace(string(info)) == s.target && len(b) > 0 && len(files) > 0 {
 		ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
 		if ts > 0 {
 			available = true
 		}
 	}
 
-	return available, cacheDir, cacheFS, time.Since(time.Unix(ts, 0))
+	return available, cacheDir, files, time.Since(time.Unix(ts, 0))
+}
+
+// readCacheDir reads the version info, the timestamp and the template files of a cache directory,
+// which other processes may replace at any time.
+func readCacheDir(cacheDir string) (info, timestamp []byte, files []templateFile, err error) {
+	for i := 0; i < 10; i++ {
+		dir, err := os.Open(cacheDir)
+		if err != nil {
+			return nil, nil, nil, err
+		}
+		defer dir.Close() // after the comparison, as a removed directory keeps its identity only while open
+
+		// convert local fs to http filesystem
+		cacheFS := http.Dir(cacheDir)
+		info, infoErr := vfsutil.ReadFile(cacheFS, templateCacheInfoFilename)
+		timestamp, tsErr := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename)
+		files, filesErr := readTemplates(cacheFS)
+
+		opened, err := dir.Stat()
+		if err != nil {
+			return nil, nil, nil, err
+		}
+		if now, err := os.Stat(cacheDir); err != nil || !os.SameFile(opened, now) {
+			continue
+		}
+		return info, timestamp, files, errors.Join(infoErr, tsErr, filesErr)
+	}
+	return nil, nil, nil, fmt.Errorf("template cache at %s does not come to rest", cacheDir)
 }
 
 func (s *TemplateSource) getTmpCacheDir() (string, error) {
-- 
2.43.0


From e6c447d9cc33a3be11fd97280340485d5a7cface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 10/33] fix: refetch templates when the cache is from the
 future

---
 gen/template_source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index b367a82..d3f1497 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -105,7 +105,7 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	s.TmplDir = cacheDir
 	s.TmplVersion = s.target
 
-	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
+	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL || cacheAge < 0 {
 		// fetch from remote git
 		files, err = fetchTemplates(s.target)
 		if err != nil {
-- 
2.43.0


From 12b5d05b5943361dcd916836781d4df88616fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 11/33] fix: exit non-zero when standard output cannot be
 written or formatting fails

---
 cmd/webrpc-gen/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..67523c9 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -124,7 +124,11 @@ func main() {
 
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
-		fmt.Println(genOutput.Code)
+		if _, err := fmt.Println(genOutput.Code); err != nil {
+			fmt.Fprintln(os.Stderr, err.Error())
+			os.Exit(1)
+		}
+		exitOnFormatErr(genOutput)
 		os.Exit(0)
 	}
 
@@ -137,6 +141,7 @@ func main() {
 
 	// Print gen report
 	if *silentFlag {
+		exitOnFormatErr(genOutput)
 		os.Exit(0)
 	}
 
@@ -160,6 +165,13 @@ func main() {
 	fmt.Println(" output file        :", *outFlag)
 	if genOutput.FormatErr != nil {
 		fmt.Println(" format error       :", genOutput.FormatErr)
+	}
+	exitOnFormatErr(genOutput)
+}
+
+func exitOnFormatErr(genOutput *gen.GenOutput) {
+	if genOutput.FormatErr != nil {
+		fmt.Fprintln(os.Stderr, genOutput.FormatErr.Error())
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 27e3ee042fdf0bc3485d47c718b0abc5b733c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 12/33] fix: keep aliases in use and stop at recursive structs
 when shaking types

---
 schema/schema.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 1ac7ce1..ace88aa 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -224,6 +224,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			if mark[t.Name] {
+				return // been here, a struct may contain itself
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -233,6 +236,18 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			}
 		}
 
+		// Alias type: mark and traverse the underlying type
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if mark[t.Name] {
+				return
+			}
+			if t.Name != "" {
+				mark[t.Name] = true
+			}
+			walkVarType(t.Type, mark)
+		}
+
 		// Enum type: mark usage
 		if vt.Enum != nil && vt.Enum.Type != nil {
 			t := vt.Enum.Type
-- 
2.43.0


From ee8c1f2ffbfd344dd5a3c8b004aeda37ed4e01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 13/33] fix: report I/O errors when listing a local template
 directory

---
 gen/template_source.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index d3f1497..6809bd0 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -78,7 +78,11 @@ func (s *TemplateSource) loadTemplates() (*template.Template, error) {
 	// from local directory
 	if isLocalDir(s.target) {
 		s.IsLocal = true
-		tmpl, err := s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))
+		files, err := localTemplateFiles(s.target)
+		if err != nil {
+			return nil, fmt.Errorf("failed to load templates from %s: %w", s.target, err)
+		}
+		tmpl, err := s.tmpl.ParseFiles(files...)
 		if err != nil {
 			return nil, fmt.Errorf("failed to load templates from %s: %w", s.target, err)
 		}
@@ -97,6 +101,25 @@ func (s *TemplateSource) loadTemplates() (*template.Template, error) {
 	return tmpl, nil
 }
 
+// localTemplateFiles lists the templates in a local directory. Unlike filepath.Glob, it doesn't ignore I/O errors
+// and it takes the name of the directory as it is.
+func localTemplateFiles(dir string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var files []string
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), ".go.tmpl") {
+			files = append(files, filepath.Join(dir, entry.Name()))
+		}
+	}
+	if len(files) == 0 {
+		return nil, fmt.Errorf("no *.go.tmpl files found")
+	}
+	return files, nil
+}
+
 func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	var err error
 	var files []templateFile
-- 
2.43.0


From cb198f70c9a8779ed9eb3eec6bf2161f1f604ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 14/33] fix: resolve the underlying type of aliases in JSON
 schemas

---
 schema/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/type.go b/schema/type.go
index 5746094..7dd5a6e 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -67,7 +67,7 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
-- 
2.43.0


From b398fe996cc4e4d47457b473ad46b7860d2e7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 15/33] fix: tell about a failed refresh even if the cache is
 from the future

---
 cmd/webrpc-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 67523c9..75448a4 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -153,7 +153,7 @@ func main() {
 	if !genOutput.IsLocal {
 		fmt.Println(" target cache       :", genOutput.TmplDir)
 		cacheAge := "now (refreshed)"
-		if genOutput.CacheAge > 0 {
+		if genOutput.CacheAge > 0 || genOutput.CacheRefreshErr != nil {
 			cacheAge = fmt.Sprintf("%v", genOutput.CacheAge.Truncate(time.Second))
 			if genOutput.CacheRefreshErr != nil {
 				cacheAge += fmt.Sprintf(" (failed to refresh: %v)", genOutput.CacheRefreshErr)
-- 
2.43.0


From 031535f697453dc390caee4b098622d084b66ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 16/33] fix: ignore an empty answer of the commands that tell
 the version

---
 version.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/version.go b/version.go
index b15ef11..36b9618 100644
--- a/version.go
+++ b/version.go
@@ -27,14 +27,16 @@ func init() {
 func inferRuntimeVersion() string {
 	// $ go list -m -f {{.Version}} github.com/webrpc/webrpc
 	// v0.22.0\n
-	if out, _ := exec.Command("go", "list", "-m", "-f", "{{.Version}}", "github.com/webrpc/webrpc").Output(); len(out) > 0 {
-		return strings.TrimSpace(string(out))
+	out, _ := exec.Command("go", "list", "-m", "-f", "{{.Version}}", "github.com/webrpc/webrpc").Output()
+	if version := strings.TrimSpace(string(out)); version != "" {
+		return version
 	}
 
 	// $ git describe --tags
 	// v0.15.1-6-g550333d\n
-	if out, _ := exec.Command("git", "describe", "--tags").Output(); len(out) > 0 {
-		return strings.TrimSpace(string(out))
+	out, _ = exec.Command("git", "describe", "--tags").Output()
+	if version := strings.TrimSpace(string(out)); version != "" {
+		return version
 	}
 
 	return "unknown"
-- 
2.43.0


From 908dfb7f582543b1a8f120667c579abce453db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 17/33] fix: keep a comment in the last line of a RIDL file
 that has no new line at its end

---
 schema/ridl/tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..ae9cdd1 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -42,6 +42,11 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		tokens = append(tokens, tok)
 	}
 
+	// a comment in the last line, without a new line after it
+	if parsingComment {
+		lineComments[tokens[len(tokens)-1].line] = strings.Join(commentTokens, " ")
+	}
+
 	return tokens, lineComments, nil
 }
 
-- 
2.43.0


From 2cdc539b4020eb426d1d58c7e9f1e442899b8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 18/33] fix: print the help of the target when it can be
 rendered, and why not otherwise

The error check was the wrong way round: webrpc-gen -target=X -help printed
"failed to render -help: <nil>" instead of the help of the target.
---
 cmd/webrpc-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 75448a4..186852f 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -280,9 +280,9 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
 			if err != nil {
-				fmt.Fprintln(os.Stderr, templateHelp.Code)
-			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
+			} else {
+				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			}
 		}
 	}
-- 
2.43.0


From f8c5960a3eca6cf484d1b9b9e30834ae3aa3d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 19/33] fix: webrpc-gen -version fails when it cannot print the
 version

---
 cmd/webrpc-gen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 186852f..e81c765 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -41,7 +41,10 @@ func main() {
 	flags.Parse(cliFlags)
 
 	if *versionFlag {
-		fmt.Println("webrpc-gen", webrpc.VERSION)
+		if _, err := fmt.Println("webrpc-gen", webrpc.VERSION); err != nil {
+			fmt.Fprintln(os.Stderr, err.Error())
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
-- 
2.43.0


From faa1f1363fde3072e967aee3eee5f6cc5dfaac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 20/33] fix: find the bigint fields behind structs that refer
 to each other

A struct visited while a cycle was cut off was remembered as having no bigint
field, so fields of its type were missing from SchemaBigIntFieldsByType,
depending on the order of the types.
---
 schema/helpers.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..a3ca8bb 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -108,24 +108,16 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 // the names Args and Return for suffixes instead of Request and Resposne suffixes for implicit method types.
 func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
 	out := make(map[string][]any)
-	// cache for recursive detection to avoid cycles
-	visited := make(map[string]bool)
-	memo := make(map[string]bool)
 
-	var structHasBigIntRecursive func(t *Type) bool
-	structHasBigIntRecursive = func(t *Type) bool {
-		if t == nil || t.Kind != TypeKind_Struct {
+	// structReachesBigInt visits every struct at most once per search, so that cycles end.
+	// A struct that was cut off in a cycle of one search isn't settled by it, hence each
+	// search starts anew.
+	var structReachesBigInt func(t *Type, visited map[string]bool) bool
+	structReachesBigInt = func(t *Type, visited map[string]bool) bool {
+		if t == nil || t.Kind != TypeKind_Struct || visited[t.Name] {
 			return false
 		}
-		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
-		}
-		if visited[name] { // cycle guard
-			return false
-		}
-		visited[name] = true
-		defer func() { visited[name] = false }()
+		visited[t.Name] = true
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -133,28 +125,26 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			}
 			// direct scalar bigint
 			if strings.EqualFold(f.Type.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// list of bigint
 			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
-			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_Struct && f.Type.Struct != nil && structReachesBigInt(f.Type.Struct.Type, visited) {
 				return true
 			}
 			// list of nested struct
-			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
-				memo[name] = true
+			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structReachesBigInt(f.Type.List.Elem.Struct.Type, visited) {
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
+	structHasBigIntRecursive := func(t *Type) bool {
+		return structReachesBigInt(t, make(map[string]bool))
+	}
 
 	// helper to collect bigint-related fields for a given struct type
 	collectStruct := func(t *Type) []any {
-- 
2.43.0


From 111c9a6b03eb5eb13e500f82edb711610ffdfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:33 +0000
Subject: [PATCH 21/33] fix: keep non-ASCII characters of quoted and literal
 values

The values were copied byte by byte and each byte became a character of its own.
---
 schema/ridl/parser_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..75fc60d 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -54,7 +54,7 @@ func unescapeString(in string) (string, error) {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			out = out + in[i:i+1]
 		}
 	}
 
-- 
2.43.0


From 7126a0ee2a9b10820922cb5b12796082cd2e8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 22/33] fix: a hash within a quoted string is no comment

The rest of the string became the comment of a definition below it.
---
 schema/ridl/tokenizer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index ae9cdd1..2300416 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -15,6 +15,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 	lineComments := make(map[int]string)
 
 	parsingComment := false
+	parsingString, escaped := false, false
 	commentTokens := []string{}
 
 	for tok := range lx.tokens {
@@ -22,8 +23,16 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			break
 		}
 
+		// a hash within a quoted string doesn't start a comment
+		if tok.tt == tokenNewLine {
+			parsingString = false
+		} else if tok.tt == tokenQuote && !parsingComment && !escaped {
+			parsingString = !parsingString
+		}
+		escaped = tok.tt == tokenBackslash && !escaped
+
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
+		if tok.tt == tokenHash && !parsingString {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From 6a6acaf9fb4f16d2c261ca337d9c80bf8bf253ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 23/33] fix: a trailing comment belongs to its own line only

Comments after an error, a field's metadata or an annotated method became comments
of the definition in the next line; comments above several annotations got lost.
---
 schema/ridl/definition_parser.go |  2 +-
 schema/ridl/enum_parser.go       |  6 +++---
 schema/ridl/parser.go            | 19 ++++++++++++++++++-
 schema/ridl/service_parser.go    | 19 ++++++++++++++-----
 schema/ridl/struct_parser.go     |  4 ++--
 schema/ridl/type_alias_parser.go |  2 +-
 6 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/schema/ridl/definition_parser.go b/schema/ridl/definition_parser.go
index 34bc0e4..407d6c5 100644
--- a/schema/ridl/definition_parser.go
+++ b/schema/ridl/definition_parser.go
@@ -24,6 +24,6 @@ func parserStateDefinition(p *parser) parserState {
 
 	return parserStateDefinitionValue(&DefinitionNode{
 		leftNode: newTokenNode(tokens[0]),
-		comment:  parseComments(p.comments, tokens[0].line),
+		comment:  p.parseComments(tokens[0].line),
 	})
 }
diff --git a/schema/ridl/enum_parser.go b/schema/ridl/enum_parser.go
index abc9275..7443d26 100644
--- a/schema/ridl/enum_parser.go
+++ b/schema/ridl/enum_parser.go
@@ -11,7 +11,7 @@ func parserStateEnumExplicitValue(en *EnumNode, dn *DefinitionNode) parserState
 				return p.stateError(err)
 			}
 			dn.rightNode = newTokenNode(explicitValue)
-			en.comment = parseComments(p.comments, explicitValue.line)
+			en.comment = p.parseComments(explicitValue.line)
 		}
 
 		en.values = append(en.values, dn)
@@ -36,7 +36,7 @@ func parserStateEnumDefinition(et *EnumNode) parserState {
 
 			return parserStateEnumExplicitValue(et, &DefinitionNode{
 				leftNode: newTokenNode(matches[2]),
-				comment:  parseComments(p.comments, matches[0].line),
+				comment:  p.parseComments(matches[0].line),
 			})
 
 		case tokenNewLine, tokenWhitespace:
@@ -70,7 +70,7 @@ func parserStateEnum(p *parser) parserState {
 		name:     newTokenNode(matches[2]),
 		enumType: newTokenNode(matches[5]),
 		values:   []*DefinitionNode{},
-		comment:  parseComments(p.comments, matches[0].line),
+		comment:  p.parseComments(matches[0].line),
 		line:     matches[0].line,
 	})
 }
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..e29316e 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -44,6 +44,7 @@ type parser struct {
 
 	words    chan interface{}
 	comments map[int]string
+	code     map[int]bool // lines with something else than a comment
 
 	root RootNode
 }
@@ -60,6 +61,16 @@ func newParser(file string, src []byte) (*parser, error) {
 		tokens:   tokens,
 		length:   len(tokens),
 		comments: comments,
+		code:     map[int]bool{},
+	}
+	comment := 0 // line of the last comment
+	for _, tok := range tokens {
+		switch {
+		case tok.tt == tokenHash && comment != tok.line:
+			comment = tok.line
+		case tok.tt != tokenWhitespace && tok.tt != tokenNewLine && comment != tok.line:
+			p.code[tok.line] = true
+		}
 	}
 	return p, nil
 }
@@ -520,7 +531,10 @@ func composedValue(tokens []*token) (*token, error) {
 	}, nil
 }
 
-func parseComments(comments map[int]string, currentLine int) string {
+// parseComments takes the comment of a line and the comments right above it. A comment that follows
+// something else in its line belongs to that only.
+func (p *parser) parseComments(currentLine int) string {
+	comments, firstLine := p.comments, currentLine
 	iteration := 0
 	c := []string{}
 
@@ -530,6 +544,9 @@ func parseComments(comments map[int]string, currentLine int) string {
 
 	for ; currentLine >= 0; currentLine-- {
 		comment, ok := comments[currentLine]
+		if currentLine != firstLine && p.code[currentLine] {
+			break
+		}
 		if ok {
 			if !strings.HasPrefix(comment, "!") {
 				c = append(c, comment)
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index ec6ccf8..537ff82 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -1,6 +1,9 @@
 package ridl
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 	return func(p *parser) parserState {
@@ -51,15 +54,21 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 		}
 
 		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
+		// we have to start parsing comments from the line of first annotation
 		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+			commentLine = sn.methodAnnotations[0].AnnotationType().tok.line
+		}
+		comments := []string{}
+		for line := commentLine; line <= matches[0].line; line++ {
+			if comment := p.parseComments(line); comment != "" {
+				comments = append(comments, comment)
+			}
 		}
 
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: strings.Join(comments, "\n"),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
@@ -177,7 +186,7 @@ func parserStateService(p *parser) parserState {
 	return parserStateServiceMethod(&ServiceNode{
 		name:    newTokenNode(serviceName),
 		methods: []*MethodNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.parseComments(matches[0].line),
 	})
 }
 
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..263b771 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -73,7 +73,7 @@ func parserStateStructFieldDefinition(mn *StructNode) parserState {
 
 		field := &DefinitionNode{
 			leftNode: newTokenNode(matches[2]),
-			comment:  parseComments(p.comments, matches[0].line),
+			comment:  p.parseComments(matches[0].line),
 		}
 
 		// ?
@@ -140,7 +140,7 @@ func parserStateStruct(p *parser) parserState {
 	return parserStateStructField(&StructNode{
 		name:    newTokenNode(matches[2]),
 		fields:  []*DefinitionNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.parseComments(matches[0].line),
 		line:    matches[0].line,
 	})
 }
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..01bf52f 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -74,7 +74,7 @@ func parserStateTypeAlias(p *parser) parserState {
 	ta := &TypeAliasNode{
 		name:      newTokenNode(matches[2]),
 		aliasType: newTokenNode(typeToken),
-		comment:   parseComments(p.comments, matches[0].line),
+		comment:   p.parseComments(matches[0].line),
 		line:      matches[0].line,
 	}
 
-- 
2.43.0


From b3b78ba66a050ba044260d7c33f7ab56db2b3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:45 +0000
Subject: [PATCH 24/33] fix: an escaped quote may follow a word

The backslash was taken as a part of the word and the quote ended the string.
---
 schema/ridl/parser.go    | 6 ++++++
 schema/ridl/tokenizer.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index e29316e..47d81f6 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -235,6 +235,12 @@ loop:
 		}
 
 		tokens = append(tokens, tok)
+
+		// a word takes the backslash that follows it, which may escape a quote
+		if tok.tt == tokenWord && strings.HasSuffix(tok.val, `\`) && p.cursor().tt == tokenQuote {
+			tokens = append(tokens, p.cursor())
+			p.next()
+		}
 	}
 
 	return composedValue(tokens)
diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 2300416..8cbd1bb 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -29,7 +29,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 		} else if tok.tt == tokenQuote && !parsingComment && !escaped {
 			parsingString = !parsingString
 		}
-		escaped = tok.tt == tokenBackslash && !escaped
+		escaped = strings.HasSuffix(tok.val, `\`) && !(escaped && tok.tt == tokenBackslash)
 
 		// start parsing comment tokens until new line
 		if tok.tt == tokenHash && !parsingString {
-- 
2.43.0


From 0df8c492cf9cbaf2fe7bb1b1a29f0ae7b66eb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 25/33] fix: a definition may follow a succinct method right in
 the next line

The token after the closing parenthesis was skipped, and then the first word of the next line.
---
 schema/ridl/type_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..f7bce17 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -94,7 +94,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From cb7bf7061ef9d2cd2b9233c9d25340793d9de079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:17 +0000
Subject: [PATCH 26/33] fix: reject an unknown word after a method's signature

It was dropped silently, a misspelled or cut off errors clause for one.
---
 schema/ridl/service_parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 537ff82..fcb3f03 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -115,7 +115,11 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if matches[1].val != wordErrors {
+				return p.stateError(errUnexpectedToken)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
-- 
2.43.0


From 7a6e0f855cb03c01ff09a62a252eeaa6b39f9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 27/33] fix: keep what follows the quoted value of an
 annotation

One token after the closing quote was dropped, such as the first word of the next definition.
---
 schema/ridl/service_parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index fcb3f03..c73bf96 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -229,13 +229,14 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 
 		p.next()
 
+		switch p.cursor().tt {
 		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		case tokenWord:
 			annotation.value = newTokenNode(p.cursor())
-		}
+			p.next()
 
 		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		case tokenQuote:
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
@@ -244,7 +245,10 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			annotation.value = newTokenNode(annotationValue)
 		}
 
-		p.next()
+		// whitespace is optional
+		if _, err := p.match(tokenWhitespace); err != nil {
+			return nil, err
+		}
 
 		annotations = append(annotations, annotation)
 	}
-- 
2.43.0


From 93adedbb2aaebcafe0da1bd9b338b20d5ca86239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 28/33] fix: report an annotation without a method after it

It was dropped silently.
---
 schema/ridl/service_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index c73bf96..b7dfbad 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -160,6 +160,10 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			return state
 
 		default:
+			if len(s.methodAnnotations) > 0 {
+				return p.stateError(fmt.Errorf("annotation without a method: %v", s.methodAnnotations[0].AnnotationType()))
+			}
+
 			p.emit(s)
 			return parserDefaultState
 
-- 
2.43.0


From eb7c74f93388e98ed7ee93656bda5f54160fe4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 29/33] fix: reject an error code that is out of range

It was taken as the largest possible code.
---
 schema/ridl/ridl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 2d30d1b..a600639 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -304,7 +304,10 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("invalid code '%s' for error type '%s'", line.code.String(), line.name.String())
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
-- 
2.43.0


From e5b49a9fb3442223d0bbfdd140e28c0fbebe0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 30/33] fix: report a syntax error at the end of a file with
 its line

The parser knew no position for the end of the input, so a file that ended
too early was reported as an error at line 0.
---
 schema/ridl/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 47d81f6..d1357fd 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -32,8 +32,6 @@ var (
 	errUnexpectedEOL   = errors.New(`unexpected EOL`)
 )
 
-var eofToken = &token{tt: tokenEOF}
-
 type parserState func(*parser) parserState
 
 type parser struct {
@@ -41,6 +39,7 @@ type parser struct {
 	tokens []token
 	length int
 	pos    int
+	eof    token // stands where the input ends
 
 	words    chan interface{}
 	comments map[int]string
@@ -62,6 +61,11 @@ func newParser(file string, src []byte) (*parser, error) {
 		length:   len(tokens),
 		comments: comments,
 		code:     map[int]bool{},
+		eof:      token{tt: tokenEOF},
+	}
+	if len(tokens) > 0 {
+		last := tokens[len(tokens)-1]
+		p.eof.pos, p.eof.line, p.eof.col = last.pos, last.line, last.col
 	}
 	comment := 0 // line of the last comment
 	for _, tok := range tokens {
@@ -193,7 +197,7 @@ func (p *parser) next() bool {
 
 func (p *parser) cursor() *token {
 	if p.pos >= p.length {
-		return eofToken
+		return &p.eof
 	}
 	return &p.tokens[p.pos]
 }
-- 
2.43.0


From b07e789bd106b9a7ed13861d35cfc95041874141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 31/33] fix: report a string that isn't closed with the line it
 stands in

The parser had already moved to the next line, or, after a backslash at the
end of the line, looked for the closing quote in the lines below.
---
 schema/ridl/parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index d1357fd..9b348c7 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -215,22 +215,30 @@ func (p *parser) expectStringValue() (*token, error) {
 loop:
 	for {
 		tok := p.cursor()
-		p.next()
 
 		switch tok.tt {
 
+		// don't go past the line of the error
 		case tokenNewLine:
 			return nil, errUnexpectedEOL
 
 		case tokenEOF:
 			return nil, errUnexpectedEOF
+		}
+
+		p.next()
+
+		switch tok.tt {
 
 		case tokenBackslash:
 			// push backlash
 			tokens = append(tokens, tok)
 
-			// push whatever else comes next
+			// push whatever else comes next in this line
 			tok = p.cursor()
+			if tok.tt == tokenNewLine {
+				continue
+			}
 			p.next()
 
 		case tokenQuote:
-- 
2.43.0


From d2e2f19c3aa5711246b2d78aa34544786784b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 32/33] fix: report a misplaced annotation with the line it
 stands in

---
 schema/ridl/parser.go         | 7 +++++--
 schema/ridl/service_parser.go | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 9b348c7..f016db8 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -173,8 +173,11 @@ func (p *parser) expectOptionalCommentOrEOL() error {
 }
 
 func (p *parser) stateError(err error) parserState {
-	cur := p.cursor()
-	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err)
+	return p.stateErrorAt(p.cursor(), err)
+}
+
+func (p *parser) stateErrorAt(tok *token, err error) parserState {
+	err = fmt.Errorf("%d:%d: error near %q: %v", tok.line, tok.col, tok.val, err)
 	p.emit(err)
 	return nil
 }
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index b7dfbad..9bab13a 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -18,7 +18,7 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 		annotations := make(map[string]struct{})
 		for _, ann := range sn.methodAnnotations {
 			if _, ok := annotations[ann.AnnotationType().String()]; ok {
-				return p.stateError(fmt.Errorf("duplicate annotation type: %v", ann.AnnotationType()))
+				return p.stateErrorAt(ann.AnnotationType().tok, fmt.Errorf("duplicate annotation type: %v", ann.AnnotationType()))
 			}
 
 			annotations[ann.AnnotationType().String()] = struct{}{}
@@ -161,7 +161,8 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 
 		default:
 			if len(s.methodAnnotations) > 0 {
-				return p.stateError(fmt.Errorf("annotation without a method: %v", s.methodAnnotations[0].AnnotationType()))
+				ann := s.methodAnnotations[0].AnnotationType()
+				return p.stateErrorAt(ann.tok, fmt.Errorf("annotation without a method: %v", ann))
 			}
 
 			p.emit(s)
-- 
2.43.0


From 38e04164bbb5c96bc89238bd7ac56c4ab016f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 33/33] fix: don't wait for ever for templates that remote git
 doesn't deliver

---
 gen/template_source.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen/template_source.go b/gen/template_source.go
index 6809bd0..df13407 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -42,6 +42,9 @@ const (
 	templateCacheInfoFilename      = ".webrpc-gen-info"
 )
 
+// time that remote git has for each answer, so that one which stalls doesn't keep us from using the local cache.
+const templateFetchTimeout = 2 * time.Minute
+
 type TemplateSource struct {
 	tmpl   *template.Template
 	target string
@@ -168,6 +171,7 @@ func fetchTemplates(target string) ([]templateFile, error) {
 	transport := &fetchTransport{}
 	client := &http.Client{
 		Transport: transport,
+		Timeout:   templateFetchTimeout,
 		CheckRedirect: func(req *http.Request, via []*http.Request) error {
 			if len(via) >= 10 {
 				return transport.failed(fmt.Errorf("%s: stopped after 10 redirects", via[0].URL))
-- 
2.43.0

