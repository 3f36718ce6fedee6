package hc

import (
	"github.com/ls6-events/astra"
	ginput "github.com/ls6-events/astra/inputs/gin"
	osx "github.com/ls6-events/astra/zzverif/osx"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
)

// Gin is gin's import path.
const Gin = "github.com/gin-gonic/gin"

// GinSource declares the part of gin that the programs under analysis use.
const GinSource = `package gin

type Request struct{ Method string }

type FileHeader struct{ Filename string }

type H map[string]any

type Context struct {
	Request *Request
	Keys    map[string]any
}

type HandlerFunc func(*Context)

func (c *Context) JSON(code int, obj any)     {}
func (c *Context) XML(code int, obj any)      {}
func (c *Context) YAML(code int, obj any)     {}
func (c *Context) ProtoBuf(code int, obj any) {}

func (c *Context) Data(code int, contentType string, data []byte)   {}
func (c *Context) String(code int, format string, values ...any)    {}
func (c *Context) Status(code int)                                  {}
func (c *Context) Header(key, value string)                         {}
func (c *Context) AbortWithStatus(code int)                         {}
func (c *Context) AbortWithStatusJSON(code int, obj any)            {}
func (c *Context) AbortWithError(code int, err error) (e error)     { return }
func (c *Context) GetHeader(key string) (s string)                  { return }
func (c *Context) Query(key string) (s string)                      { return }
func (c *Context) GetQuery(key string) (s string, ok bool)          { return }
func (c *Context) QueryArray(key string) (s []string)               { return }
func (c *Context) GetQueryArray(key string) (s []string, ok bool)   { return }
func (c *Context) QueryMap(key string) (s map[string]string)        { return }
func (c *Context) GetQueryMap(key string) (s map[string]string, ok bool) { return }
func (c *Context) PostForm(key string) (s string)                   { return }
func (c *Context) GetPostForm(key string) (s string, ok bool)       { return }
func (c *Context) PostFormArray(key string) (s []string)            { return }
func (c *Context) GetPostFormArray(key string) (s []string, ok bool) { return }
func (c *Context) PostFormMap(key string) (s map[string]string)     { return }
func (c *Context) GetPostFormMap(key string) (s map[string]string, ok bool) { return }
func (c *Context) FormFile(name string) (f *FileHeader, err error)  { return }
func (c *Context) Bind(obj any) (err error)                         { return }
func (c *Context) BindJSON(obj any) (err error)                     { return }
func (c *Context) BindXML(obj any) (err error)                      { return }
func (c *Context) BindYAML(obj any) (err error)                     { return }
func (c *Context) BindQuery(obj any) (err error)                    { return }
func (c *Context) BindHeader(obj any) (err error)                   { return }
func (c *Context) ShouldBind(obj any) (err error)                   { return }
func (c *Context) ShouldBindJSON(obj any) (err error)               { return }
func (c *Context) ShouldBindXML(obj any) (err error)                { return }
func (c *Context) ShouldBindYAML(obj any) (err error)               { return }
func (c *Context) ShouldBindQuery(obj any) (err error)              { return }
func (c *Context) ShouldBindHeader(obj any) (err error)             { return }

func (c *Context) Next()                               {}
func (c *Context) Abort()                              {}
func (c *Context) Set(key string, value any)           {}
func (c *Context) Get(key string) (value any, ok bool) { return }
func (c *Context) Param(key string) (s string)         { return }
func (c *Context) Cookie(name string) (s string, err error) { return }
func (c *Context) Copy() *Context                      { return c }
`

// GinLite declares the part of gin that the cheaper programs use.
const GinLite = `package gin

type Context struct{ Keys map[string]any }

type HandlerFunc func(*Context)

func (c *Context) JSON(code int, obj any)      {}
func (c *Context) Status(code int)             {}
func (c *Context) Query(key string) (s string) { return }
func (c *Context) Next()                       {}
func (c *Context) BindJSON(obj any) (e error)  { return }
`

// Source is a file of the program under analysis.
func Source(pkg, file, text string) packages.Source {
	return packages.Source{Pkg: pkg, File: file, Text: text}
}

// Program registers a program, with gin.
func Program(gin string, src ...packages.Source) {
	packages.Reset(append([]packages.Source{Source(Gin, "/gin/gin.go", gin)}, src...))
}

// Handler makes the route of the function name of package pkg, declared in file.
func Handler(pkg, name, file string, line int) astra.Route {
	return astra.Route{Handler: pkg + "." + name, File: file, LineNo: line, Method: "GET", Path: "/"}
}

// ParseGin parses the routes of the registered program.
func ParseGin(s *astra.Service, routes ...astra.Route) error {
	osx.Put(WD+"/go.mod", "module m\n")
	s.Routes = routes
	return ginput.ParseRoutes()(s)
}

// Calls is how many calls GinCall knows.
const Calls = 45

// Returns is how many of them, the first, record a response.
const Returns = 10

// GinCall gives the supported call number i on the context ctx as an expression, with the source
// of its name or status argument and of its value, and what it records, given what those mean.
func GinCall(i int, ctx, name, status, value string) (string, func(r *astra.Route, name string, status int, value astra.Field)) {
	ret := func(ct string, f func(v astra.Field) astra.Field) func(*astra.Route, string, int, astra.Field) {
		return func(r *astra.Route, _ string, status int, v astra.Field) {
			r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: status, ContentType: ct, Field: f(v)})
		}
	}
	same := func(v astra.Field) astra.Field { return v }
	only := func(t string) func(astra.Field) astra.Field {
		return func(astra.Field) astra.Field { return astra.Field{Type: t} }
	}
	query := func(array, isMap bool) func(*astra.Route, string, int, astra.Field) {
		return func(r *astra.Route, n string, _ int, _ astra.Field) {
			r.QueryParams = append(r.QueryParams, astra.Param{Name: n, Field: astra.Field{Type: "string"}, IsArray: array, IsMap: isMap})
		}
	}
	form := func(ct, typ string, array, isMap bool) func(*astra.Route, string, int, astra.Field) {
		return func(r *astra.Route, n string, _ int, _ astra.Field) {
			r.Body = append(r.Body, astra.BodyParam{Name: n, ContentType: ct, Field: astra.Field{Type: typ}, IsArray: array, IsMap: isMap})
		}
	}
	body := func(cts ...string) func(*astra.Route, string, int, astra.Field) {
		return func(r *astra.Route, _ string, _ int, v astra.Field) {
			for _, ct := range cts {
				r.Body = append(r.Body, astra.BodyParam{ContentType: ct, Field: v, IsBound: true})
			}
		}
	}
	const url = "application/x-www-form-urlencoded"
	c := ctx + "."
	switch i {
	case 0:
		return c + "JSON(" + status + ", " + value + ")", ret("application/json", same)
	case 1:
		return c + "XML(" + status + ", " + value + ")", ret("application/xml", same)
	case 2:
		return c + "YAML(" + status + ", " + value + ")", ret("application/yaml", same)
	case 3:
		return c + "ProtoBuf(" + status + ", " + value + ")", ret("application/protobuf", same)
	case 4:
		return c + "Data(" + status + ", " + name + ", []byte(\"x\"))", func(r *astra.Route, name string, status int, _ astra.Field) {
			r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: status, ContentType: name, Field: astra.Field{Type: "slice", SliceType: "byte"}})
		}
	case 5:
		return c + "String(" + status + ", " + name + ")", ret("text/plain", only("string"))
	case 6:
		return c + "Status(" + status + ")", ret("", only("nil"))
	case 7:
		return c + "AbortWithStatus(" + status + ")", ret("", only("nil"))
	case 8:
		return c + "AbortWithStatusJSON(" + status + ", " + value + ")", ret("application/json", same)
	case 9:
		return c + "AbortWithError(" + status + ", nil)", ret("", only("nil"))
	case 10:
		return c + "Header(" + name + ", \"x\")", func(r *astra.Route, n string, _ int, _ astra.Field) {
			r.ResponseHeaders = append(r.ResponseHeaders, astra.Param{Name: n, Field: astra.Field{Type: "string"}})
		}
	case 11:
		return c + "GetHeader(" + name + ")", func(r *astra.Route, n string, _ int, _ astra.Field) {
			r.RequestHeaders = append(r.RequestHeaders, astra.Param{Name: n, Field: astra.Field{Type: "string"}})
		}
	case 12:
		return c + "Query(" + name + ")", query(false, false)
	case 13:
		return c + "GetQuery(" + name + ")", query(false, false)
	case 14:
		return c + "QueryArray(" + name + ")", query(true, false)
	case 15:
		return c + "GetQueryArray(" + name + ")", query(true, false)
	case 16:
		return c + "QueryMap(" + name + ")", query(false, true)
	case 17:
		return c + "GetQueryMap(" + name + ")", query(false, true)
	case 18:
		return c + "PostForm(" + name + ")", form(url, "string", false, false)
	case 19:
		return c + "GetPostForm(" + name + ")", form(url, "string", false, false)
	case 20:
		return c + "PostFormArray(" + name + ")", form(url, "string", true, false)
	case 21:
		return c + "GetPostFormArray(" + name + ")", form(url, "string", true, false)
	case 22:
		return c + "PostFormMap(" + name + ")", form(url, "string", false, true)
	case 23:
		return c + "GetPostFormMap(" + name + ")", form(url, "string", false, true)
	case 24:
		return c + "FormFile(" + name + ")", form("multipart/form-data", "file", false, false)
	}
	if i >= 25 && i < 39 {
		j := i - 25
		call := c
		if j >= 7 {
			j -= 7
			call += "Should"
		}
		bound := func(v astra.Field) astra.Param { return astra.Param{Field: v, IsBound: true} }
		switch j {
		case 0:
			return call + "Bind(&" + value + ")", func(r *astra.Route, n string, s int, v astra.Field) {
				r.PathParams = append(r.PathParams, bound(v))
				r.QueryParams = append(r.QueryParams, bound(v))
				r.RequestHeaders = append(r.RequestHeaders, bound(v))
				body(url, "multipart/form-data", "application/json", "application/xml", "application/yaml")(r, n, s, v)
			}
		case 1:
			return call + "BindJSON(&" + value + ")", body("application/json")
		case 2:
			return call + "BindXML(&" + value + ")", body("application/xml")
		case 3:
			return call + "BindYAML(&" + value + ")", body("application/yaml")
		case 4:
			return call + "BindQuery(&" + value + ")", func(r *astra.Route, _ string, _ int, v astra.Field) {
				r.QueryParams = append(r.QueryParams, bound(v))
			}
		case 5:
			return call + "BindHeader(&" + value + ")", func(r *astra.Route, _ string, _ int, v astra.Field) {
				r.RequestHeaders = append(r.RequestHeaders, bound(v))
			}
		}
	}
	// Calls that record nothing.
	none := func(*astra.Route, string, int, astra.Field) {}
	switch i {
	case 31, 38, 39:
		return c + "Next()", none
	case 40:
		return c + "Set(" + name + ", 200)", none
	case 41:
		return c + "Get(" + name + ")", none
	case 42:
		return c + "Param(" + name + ")", none
	case 43:
		return c + "Cookie(" + name + ")", none
	}
	return c + "Copy()", none
}
