// Package gin is a stand-in for the part of gin the code under test uses: a router that lists
// the routes a harness registered.
package gin

// Context is the handler argument.
type Context struct{}

// HandlerFunc is a handler.
type HandlerFunc func(*Context)

// RouteInfo describes one registered route.
type RouteInfo struct {
	Method      string
	Path        string
	Handler     string
	HandlerFunc HandlerFunc
}

// RoutesInfo lists routes.
type RoutesInfo []RouteInfo

// Engine lists its routes.
type Engine struct{ List RoutesInfo }

// Routes returns a copy of the registered routes, as gin does.
func (e *Engine) Routes() (routes RoutesInfo) {
	for _, r := range e.List {
		routes = append(routes, r)
	}
	return routes
}
