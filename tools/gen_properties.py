#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept readable here, emitted one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Every registered, non-denied route is recorded exactly once, in order",
 "Creating routes from a gin router records one route per registered (method, path, handler), in the router's order, with the handler's own name, source file and line. A route is left out if and only if at least one configured deny-list entry (exact string, regular expression or function) matches its path; options and routes are otherwise independent of each other. Running it changes nothing else in the service.",
 ["inputs", "configurations"], "all routers of up to n routes with arbitrary paths/methods/handlers and all deny lists of up to m entries",
 "The tests register two or three fixed routes and one fixed deny entry; they cannot vary the position of a denied route, the number and kind of deny entries, or the path bytes.",
 ["inputs/gin/createRoutes.go", "inputs/gin/createRoute.go", "listing.go", "routes.go", "createRoutes.go", "inputs/inputs.go"],
 [("deny loop", "inputs/gin/createRoutes.go CreateRoutes"), ("AddRoute", "routes.go")], ["Service.Routes after CreateRoutes"])

prop("P02", "The OpenAPI document has one operation per recorded route and none else",
 "For every recorded route whose method OpenAPI can express (GET, PUT, POST, DELETE, OPTIONS, HEAD, PATCH, TRACE), the generated document holds an operation under that route's path and method carrying that route's description and operation id; routes sharing a path keep all their operations. The document contains no other operation.",
 ["inputs"], "all lists of up to n routes over arbitrary paths and all HTTP methods, in any order and with shared paths",
 "Tests look up a handful of fixed path/method pairs; they cannot vary which methods share a path or in which order they come.",
 ["outputs/openapi/generate.go", "outputs/openapi/types.go"],
 [("paths map and method switch", "outputs/openapi/generate.go Generate")], ["the written OpenAPI file"])

prop("P03", "Path templates and path parameters correspond one to one",
 "For every gin path, the parameters extracted from it are exactly its ':name' and '*name' segments in order, typed string, required for ':' and optional for '*'; the OpenAPI path is the gin path with each ':name' replaced by '{name}' and each '*name' by '{name*}', everything else byte for byte unchanged; and the operation lists exactly one path parameter per extracted name.",
 ["inputs"], "all gin paths up to a length bound over an alphabet containing every special character",
 "A dozen fixed paths are tested; adjacent, repeated, prefix-sharing or oddly placed markers are not.",
 ["utils/pathParams.go", "inputs/gin/parseRoute.go", "outputs/openapi/generate.go"],
 [("regexp", "utils/pathParams.go getPathParamRegex"), ("MapPathParams callback", "outputs/openapi/generate.go")], ["utils.ExtractParamsFromPath", "utils.MapPathParams", "the written OpenAPI file"])

prop("P04", "Recorded query, header and path parameters all reach the document faithfully",
 "Each recorded query, request-header and path parameter appears in its operation exactly once, with its own name, location ('query', 'header', 'path'), required flag, and a scalar, array or map schema according to how it was recorded (maps as deepObject with explode, everything else as form). A bound struct is spread into one parameter per visible field of the struct, those of embedded structs included, under the field's name for that location, so that no parameter is nameless; bound path fields refine the template's own parameters; parameters come sorted by name.",
 ["inputs"], "all routes with up to n parameters of arbitrary name, location, shape and required flag, and all bound structs of up to k fields with arbitrary tags",
 "Tests cover single fixed parameters; combinations of locations, shapes, equal names and tag mixes are unbounded.",
 ["outputs/openapi/generate.go", "outputs/openapi/schema.go", "outputs/openapi/components.go"],
 [("parameter loops", "outputs/openapi/generate.go"), ("mapParamToSchema", "outputs/openapi/schema.go")], ["the written OpenAPI file"])

prop("P05", "No recorded request body or form field is lost or altered in the document",
 "For every recorded request body, the operation's requestBody has an entry under that body's content type: a bound body gives the schema of its type (where that type is visible under the content type's binding), and named form fields recorded under the same content type give one object schema having every such field as a property with its scalar, array or map schema. The requestBody contains no other content type or property.",
 ["inputs"], "all routes with up to n body parameters of arbitrary content type, name, shape and order",
 "Tests record at most one form field per content type.",
 ["outputs/openapi/generate.go", "outputs/openapi/schema.go", "bindingTags.go"],
 [("requestBody construction", "outputs/openapi/generate.go")], ["the written OpenAPI file"])

prop("P06", "Every recorded response reaches the document under its status and content type",
 "For every recorded return type, the operation has a response under its status code which, unless the return type has no body, holds the schema of that type under its content type; several return types with the same status share one response without losing any content type, and different types under one status and content type are alternatives. Every response carries all response headers recorded for the route, and no other status, content type or header appears.",
 ["inputs"], "all routes with up to n return types of arbitrary status, content type and field type, and up to m response headers",
 "Tests use one or two statuses with one content type each.",
 ["outputs/openapi/generate.go", "outputs/openapi/schema.go"],
 [("responses loop", "outputs/openapi/generate.go")], ["the written OpenAPI file"])

prop("P07", "Distinct types never share a schema name and naming never fails",
 "Whatever the package paths and names of the documented types, the document contains one schema for each (type, binding) it needs: two different types never end up under the same schema name, and every reference to a type leads to that type's schema. Types whose package name is unambiguous and whose fields have the same names in every binding keep the short 'package.Type' name, and naming does not depend on the order of the types or on services processed earlier.",
 ["inputs", "histories"], "all sets of up to n component types over arbitrary package paths (any depth, equal suffixes, equal names), any order, any previously generated service",
 "One fixed collision (two packages) is tested; the collision search is a nested loop over all pairs whose faults show only with three or more packages or with unequal depths.",
 ["outputs/openapi/components.go", "outputs/openapi/generate.go"],
 [("collision-safe names", "outputs/openapi/components.go makeCollisionSafeNamesFromComponents"), ("makeComponentRefName", "outputs/openapi/components.go")],
 ["components.schemas and $ref of the written OpenAPI file"], [("collisionSafeNames", "process-wide name table", "outputs/openapi/components.go")])

prop("P08", "Every reference in the document resolves",
 "Every '$ref' in a generated OpenAPI document names a schema that is present in the same document's components, whatever mixture of binding tags, embedded structs, slices, arrays, maps and named types the documented types use.",
 ["inputs"], "all component sets of up to n structs with up to k fields, arbitrary tag mixtures, nesting and embedding, referenced from any position of a route",
 "Tests check a few fixed schemas; a dangling reference arises only from particular mixtures of tags and field kinds.",
 ["outputs/openapi/components.go", "outputs/openapi/schema.go", "outputs/openapi/generate.go", "bindingTags.go"],
 [("makeComponentRef / componentToSchema", "outputs/openapi/components.go")], ["the written OpenAPI file"])

prop("P09", "Generation is deterministic",
 "Generating twice from the same recorded service yields byte-identical OpenAPI, JSON and Azure outputs, whatever order Go happens to iterate its maps in.",
 ["schedules", "inputs"], "all map iteration orders of the generator's own loops, over services with up to n struct fields, embedded fields, parameters and components",
 "Map iteration order is random; a test run samples one order and the comparisons in the tests are order-insensitive.",
 ["outputs/openapi/generate.go", "outputs/openapi/components.go", "bindingTags.go", "outputs/json/generate.go", "outputs/azureFunctions/generate.go"],
 [("range over maps", "outputs/openapi/components.go componentToSchema, bindingTags.go ExtractBindingTags"), ("parameter sort", "outputs/openapi/generate.go")], ["written output files"])

prop("P10", "Type mappings: custom wins, everything else keeps its predefined mapping",
 "The type mapping of a type is the user's custom mapping if one was given for its key (last one wins), else the predefined one, else none; built-in type names are looked up unqualified and all others as 'package.Name'. Custom mappings of one service never affect another service, and a mapped component's schema has exactly the mapped type and format.",
 ["inputs", "histories", "configurations"], "all custom mappings of up to n arbitrary keys/types/formats given through any combination of options, and all lookups, on one or two services",
 "Tests use one custom mapping on one service; precedence, overriding and isolation between services are not covered.",
 ["formatTypes.go", "outputs/openapi/schema.go", "outputs/openapi/components.go"],
 [("GetTypeMapping", "formatTypes.go")], ["Service.GetTypeMapping", "the written OpenAPI file"])

prop("P11", "The cache round-trips the service, as JSON and as YAML",
 "Writing the cache and loading it into a fresh service, in either format, restores the routes, components, configuration, input modes, output modes with their configuration, and custom type mappings exactly; loading an unreadable or malformed cache reports an error and leaves the service as it was; caching over an existing file fully replaces it.",
 ["inputs", "fault_sequences"], "all services of bounded size with arbitrary field contents, both formats, and any single file-system fault",
 "Tests round-trip one nearly empty service; a field that loses its value only when it is set, or only in one format, goes unnoticed.",
 ["cache.go", "service.go", "types.go", "config.go", "input.go", "output.go"],
 [("Cache / LoadCacheFromCustomPath", "cache.go"), ("struct tags", "types.go service.go")], ["Service after LoadCache"])

prop("P12", "Building from the CLI cache gives what building in one step gives",
 "After loading a cached service, rebinding restores one working input and output per cached one, in order and with the same configuration, for every supported mode and every non-empty path; an unknown mode or a missing path is an error. Completing the parse from such a service runs the same steps as a single-step parse.",
 ["inputs", "configurations"], "all lists of up to n inputs and outputs of arbitrary mode and configuration",
 "The CLI module has no tests of rebinding at all.",
 ["cli/astra/cmd/rebind.go", "cli/astra/cmd/generate.go", "outputs/outputs.go", "inputs/inputs.go", "cli"],
 [("rebindOptions", "cli/astra/cmd/rebind.go")], ["Service.Inputs / Service.Outputs after rebind"])

prop("P13", "A failing stage stops the pipeline and its error reaches the caller",
 "A parse runs setup, route creation, route parsing, cleaning, generation and teardown in that order, visiting inputs and outputs in the order they were given. If any input, output, cache write or file operation of a stage before teardown fails, the parse returns that error, no later input, output or stage runs, and nothing is reported as success; with no input or no output configured it fails before touching anything.",
 ["fault_sequences", "configurations"], "all numbers of inputs and outputs up to n, every subset of them failing, with the cache on or off, and any single file-system call failing",
 "Tests make one specific callback fail; they cannot fail each call of each stage in turn.",
 ["parse.go", "createRoutes.go", "parseRoutes.go", "generate.go", "setup.go", "clean.go", "teardown.go", "cache.go", "dir.go", "mainPackage.go"],
 [("SetupParse/CompleteParse", "parse.go")], ["return value of Service.Parse", "order of callbacks"])

prop("P14", "Only astra's own files are touched, and its temporary files are removed",
 "A run creates, changes or deletes nothing but the '.astra' directory under the working directory, the configured output files and directories, and the configured cache file; the user's source files are never modified. After a successful run without cache or CLI mode the '.astra' directory is gone, and otherwise only the temporary main package in it is gone.",
 ["inputs", "fault_sequences", "histories"], "all initial directory contents of bounded size (including leftovers of earlier or failed runs), all output kinds, cache and CLI modes, and any single file-system call failing",
 "Tests run in a clean directory without faults and compare only the expected file.",
 ["dir.go", "mainPackage.go", "cache.go", "teardown.go", "outputs/azureFunctions/generate.go", "outputs/json/generate.go", "outputs/openapi/generate.go"],
 [("setupAstraDir / cleanupAstraDir / MoveTempOutputDir", "dir.go"), ("setupTempMainPackage", "mainPackage.go")], ["file system before and after"])

prop("P15", "The temporary main package is faithful and invisible in the results",
 "The temporary copy of the user's main package holds every Go file of the working directory with only its package name changed, under the import path '<module>/.astra/astramain' where <module> is the module path of go.mod. After cleaning, every occurrence of that temporary path in any route, parameter, header, body, response or component, at any nesting, is 'main' again, and all other package paths are unchanged.",
 ["inputs"], "all directory contents of bounded size, all go.mod headers, and services of bounded size with the temporary path at arbitrary positions",
 "Tests use one fixed main package and check two kinds of position.",
 ["mainPackage.go", "clean.go", "dir.go"],
 [("setupTempMainPackage", "mainPackage.go"), ("Clean/cleanField", "clean.go")], ["file system", "Service after Clean"])

prop("P16", "Every documented gin context call of a handler is recorded",
 "For a handler whose arguments are statically known, parsing records exactly one entry per supported context call (JSON, XML, YAML, ProtoBuf, Data, String, Status, the Query/PostForm/Header families, binds, FormFile, aborts), of the documented kind, with the status code, content type, name, array/map shape and type of that call, wherever in the handler it occurs, directly or in a helper that receives the context. Calls that are not on the gin context, or are not supported, record nothing, and one route's handler never affects another route.",
 ["programs"], "all handlers of up to n calls drawn from the supported and some unsupported calls, in any order and nesting, with arbitrary names and status codes",
 "Each call kind is tested once in isolation in one fixed position.",
 ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "inputs/gin/parseRoutes.go", "contextFuncBuilder.go", "safePushing.go"],
 [("method switch", "inputs/gin/parseFunction.go")], ["Service.Routes after ParseRoutes"])

prop("P17", "Parsing never crashes or diverges, and a bad call hides no other",
 "Parsing the routes of any type-correct program terminates with a result or an error, and never panics or recurses without bound: also with recursive helpers, unnamed or differently named context parameters, non-constant arguments, calls through variables or literals, and built-in calls. A call that cannot be analysed does not prevent other calls of the handler, or other routes, from being recorded.",
 ["programs"], "all handlers of up to n statements drawn from a grammar of analysable and unanalysable calls",
 "Tests contain only well-behaved handlers.",
 ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/function.go", "astTraversal/callExpression.go", "astTraversal/expression.go", "astTraversal/traverser.go"],
 [("ast.Inspect callback", "inputs/gin/parseFunction.go")], ["Service.Routes after ParseRoutes"])

prop("P18", "Constant arguments are evaluated to the value Go gives them",
 "A status code or name given as a literal (interpreted or raw string, integer in any base), a constant, or a variable initialised from one, in the same or another package, is recorded as exactly the value it has in Go.",
 ["programs", "inputs"], "all literals up to a length bound, used directly, through named constants and through variables, locally and across packages",
 "Tests use one plain identifier-like literal per form.",
 ["astTraversal/expression.go", "astTraversal/extractStatusCode.go", "astTraversal/declaration.go", "contextFuncBuilder.go"],
 [("ExpressionTraverser.Value", "astTraversal/expression.go")], ["Route.QueryParams / ReturnTypes after ParseRoutes"])

prop("P19", "Go types are described faithfully",
 "The recorded description of a Go type gives its kind and name, its package, its element, key and value types, its array length, and for a struct exactly its exported fields and embedded structs (exported or not) of describable types (all but functions and channels) under their Go names with their types, embedding, tags and documentation; a pointer is described as what it points to. Each named type reachable from a recorded type becomes a component exactly once.",
 ["programs"], "all types up to a nesting depth built from basic, named, pointer, slice, array, map, struct and interface types, across packages",
 "Tests check one type of each constructor, not their combinations.",
 ["astTraversal/type.go", "utils.go", "safePushing.go", "inputs/gin/parseFunction.go"],
 [("TypeTraverser.Result", "astTraversal/type.go"), ("ParseResultToField", "utils.go")], ["Service.Components and Route fields after ParseRoutes"])

prop("P20", "Recursive and mutually recursive types are handled",
 "Parsing a handler that uses a type which refers to itself, directly or through other types, slices, maps, pointers or embedding, terminates and records each type involved exactly once, with the references between them intact.",
 ["programs"], "all reference graphs over up to n named struct types with each edge through a pointer, slice, map or embedded field",
 "No test contains a recursive type.",
 ["astTraversal/type.go", "inputs/gin/parseFunction.go"],
 [("TypeTraverser.Result, Named case", "astTraversal/type.go")], ["Service.Components after ParseRoutes"])

prop("P21", "Struct tags are read as the encoders and gin read them",
 "For every struct tag, each binding key present (header, form, uri, json, xml, yaml) yields the part before the first comma as name, the field's Go name when that part is empty, hidden when the whole value is '-', and optional when 'omitempty' is among the options; with no binding key the field keeps its Go name. A validation key marks the field required exactly when its comma-separated rules contain 'required'.",
 ["inputs"], "all tag strings up to a length bound built from the keys and an alphabet of all special characters",
 "A table of fixed tags is tested.",
 ["astTraversal/tags.go"], [("ParseStructTag", "astTraversal/tags.go")], ["astTraversal.ParseStructTag"])

prop("P22", "The JSON output is the recorded service, unaltered",
 "The JSON output file decodes to exactly the recorded routes and components, and is written to the configured path under the working directory, with '.json' appended if and only if it is missing; the OpenAPI output is written as YAML exactly for '.yaml' and '.yml' paths and as JSON otherwise, with the same document in both formats. Generating changes nothing in the recorded service, and the same output generates to the same place every time.",
 ["inputs", "configurations"], "all services of bounded size with arbitrary contents and all output paths up to a length bound",
 "One path and one service are tested.",
 ["outputs/json/generate.go", "outputs/openapi/generate.go", "outputs/openapi/types.go", "types.go"],
 [("Generate", "outputs/json/generate.go"), ("file type selection", "outputs/openapi/generate.go")], ["written output files"])

prop("P23", "Azure Functions output: one faithful function per route",
 "For every recorded route the Azure Functions output has a directory of its own, named after the handler function (with a suffix where routes share it), with one HTTP trigger for the route's method (plus OPTIONS) and one HTTP response binding; the trigger's route is the gin path with each ':name' replaced by '{name:type}' and each '*name' by '{name:type?}', every other byte unchanged.",
 ["inputs"], "all routes with up to n parameters of arbitrary names (including names that are prefixes of each other or of type names)",
 "There are no tests of the Azure output.",
 ["outputs/azureFunctions/generate.go", "outputs/azureFunctions/convertRoute.go", "outputs/azureFunctions/associatedMethods.go", "dir.go"],
 [("convertRoute", "outputs/azureFunctions/convertRoute.go")], ["written function.json files"])

prop("P24", "The package tree maps import paths to nodes one to one",
 "Adding, finding and finding-or-adding import paths in any order gives the same node for the same path and different nodes for different paths; a node's path is the path it was added under, finding never adds, and a path that was not added (nor is a prefix of one) is not found.",
 ["histories", "inputs"], "all sequences of up to n operations on arbitrary paths up to a length bound",
 "Tests add one or two fixed paths.",
 ["astTraversal/packageManager.go", "astTraversal/packageNode.go"],
 [("AddPackage/Find", "astTraversal/packageManager.go"), ("Path", "astTraversal/packageNode.go")], ["PackageManager API"])

prop("P25", "Recording is idempotent: duplicates are dropped, distinct entries never",
 "Adding return types or components in any order and grouping keeps exactly the first occurrence of each distinct one (return types distinguished by status, content type and type; components by name and package), in order of first occurrence; replacing a route changes that route (same path and method) only.",
 ["histories", "inputs"], "all sequences of up to n additions with arbitrary keys, in any grouping",
 "Tests add two entries at most; a duplicate of a non-first entry is not tried.",
 ["safePushing.go", "routes.go"],
 [("AddReturnType/AddComponent", "safePushing.go"), ("ReplaceRoute", "routes.go")], ["astra.AddReturnType, astra.AddComponent, Service.ReplaceRoute"])

prop("P26", "Configuration: options are independent, defaults and validation are exact",
 "Each option sets exactly what it names and later options never undo earlier unrelated ones; a config with a non-zero port validates and gets host 'localhost' and base path '/' only where empty, while port 0 is rejected; the builder sets exactly the named fields; and the document's info and server URL are '<http|https>://<host>:<port><basePath>' and the given texts verbatim.",
 ["configurations", "inputs"], "all option sequences of up to n options with arbitrary arguments and all configurations",
 "Tests set each option alone with one value.",
 ["config.go", "configBuilder.go", "options.go", "new.go", "listing.go", "logger.go", "cache", "cli", "outputs/openapi/generate.go", "outputs/outputs.go"],
 [("Config.Validate", "config.go"), ("options", "options.go listing.go formatTypes.go")], ["Service and Config fields", "the written OpenAPI file"])

prop("P27", "Handler names are split into package path and function correctly",
 "For every handler name the Go runtime reports for a top-level function or a closure in it, splitting gives back the package's import path and name and the function's name, for import paths of any depth including dots, dashes and version suffixes in any element.",
 ["inputs"], "all handler names built from import paths of up to n elements over an alphabet containing the special characters",
 "Tests use a few fixed names.",
 ["utils/splitHandlerPath.go", "inputs/gin/parseRoute.go"],
 [("SplitHandlerPath", "utils/splitHandlerPath.go")], ["utils.SplitHandlerPath"])

prop("P28", "Enum values are exactly the declared constants of the type",
 "A named basic type is documented with an enum listing exactly the values of the constants declared with that type in its package, in declaration order and with their Go values, whether literal, typed, negative or escaped; constants of other types contribute nothing.",
 ["programs", "inputs"], "all const blocks of up to n constants with arbitrary types and literals",
 "One enum per basic kind with plain literals is tested.",
 ["astTraversal/type.go", "outputs/openapi/components.go"],
 [("enum extraction", "astTraversal/type.go Result")], ["Service.Components after ParseRoutes"])

prop("P29", "Custom functions see every call and their result is kept",
 "Custom functions are offered every call expression of a handler, in source order, with the name the context has in the function that makes the call; the first one that returns a route ends the treatment of that call, built-in treatment applies only to calls none of them claims, the changes made by them to the route, or the route they return in its place, are in the result, and an error from one ends the treatment of that call alone, built-in treatment included.",
 ["programs", "configurations"], "all handlers of up to n calls and up to m custom functions with arbitrary claim/ignore/fail behaviour",
 "One custom function claiming one call is tested.",
 ["inputs/gin/parseFunction.go", "contextFuncBuilder.go"],
 [("custom function loop", "inputs/gin/parseFunction.go"), ("ContextFuncBuilder", "contextFuncBuilder.go")], ["Service.Routes after ParseRoutes"])

prop("P30", "Each route is bound to its own handler",
 "A route is documented from the function that was registered for it: the function of that name, for a method value the method of that receiver type and name, or, for an inline handler, the function literal at the registered line of the registered file, whatever other functions, methods or literals the file has; its description is that function's doc comment and its operation id the lower-camel-case function name (none for inline handlers).",
 ["programs"], "all files with up to n functions and literals in any arrangement, and every choice of the registered one",
 "Tests register a few fixed handlers.",
 ["inputs/gin/parseRoute.go", "inputs/gin/parseFunction.go", "astTraversal/function.go"],
 [("handler search", "inputs/gin/parseRoute.go")], ["Service.Routes after ParseRoutes"])

prop("P31", "Component schemas describe the recorded types",
 "For each recorded component and each binding it is used with, the component's schema has exactly one property per field visible in that binding, under the field's name for it, and the property's schema is that of the field's type: scalar type and format, array items and their number, map values, reference to the named type's schema, nested object of an anonymous struct, or enum values. Embedded structs are composed by reference, documentation becomes the description, and a mapped type has exactly its mapping.",
 ["inputs"], "all component sets of up to n types with up to k fields of every kind of type, arbitrary tags in every binding, embedding, enums, documentation and custom mappings",
 "Tests check one field of each kind with at most one tag.",
 ["outputs/openapi/components.go", "outputs/openapi/schema.go", "bindingTags.go", "formatTypes.go"],
 [("componentToSchema", "outputs/openapi/components.go"), ("mapFieldToSchema", "outputs/openapi/schema.go")], ["components.schemas of the written OpenAPI file"])

prop("P32", "Substituted types appear as their substitutes everywhere",
 "Wherever error or time.Duration is used (as a value, a field, or an element of a slice, array or map), it is documented as a string or as an integer respectively (directly, or through a reference to exactly that), with no enum; types that merely share those names keep their own description, and cleaning changes nothing else.",
 ["inputs", "programs"], "all recorded fields of every shape whose types are substituted or share names with substituted ones, and all placements in a handler's response",
 "One field of each is tested.",
 ["substituteTypes.go", "clean.go"],
 [("HandleSubstituteTypes", "substituteTypes.go"), ("Clean", "clean.go")], ["Service.Routes and Components after Clean", "the written OpenAPI file"])

prop("P33", "The document describes exactly the JSON and parameters that handlers exchange",
 "From the program's text to the written document: every JSON value that a handler writes or binds, as encoding/json encodes it (field names from tags, hidden and promoted fields, shadowing, elements of slices, arrays and maps, pointers, named types and aliases of any package, enums, times), matches the schema that the document gives for it, and the schema names no field that the JSON cannot have; structs that are bound to the query, the headers or a form give exactly the parameters and fields that gin reads.",
 ["inputs", "programs"], "all values' types from a grammar of types and struct tags, in every place of a handler, with arbitrary names in the tags",
 "Tests look at single stages with single types; what a user relies on is the composition of parsing, cleaning, naming and writing for any type.",
 ["inputs/gin", "astTraversal", "clean.go", "outputs/openapi"],
 [("Result", "astTraversal/type.go"), ("ParseStructTag", "astTraversal/tags.go"), ("componentToSchema", "outputs/openapi/components.go"), ("mapFieldToSchema", "outputs/openapi/schema.go")], ["the written OpenAPI file, for the given program text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
