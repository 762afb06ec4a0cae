'use strict';
// openapi-generator
const { claim, m, P } = require('./props.js');
const G = 'packages/openapi-generator/src/';

claim('O01', 'Simplifying a schema keeps the values it describes',
  'Simplification turns a schema into one that describes exactly the same JSON values, for every nesting of objects, arrays, records, unions, intersections, literals, null, undefined and references: merged unions lose and gain no alternative, folded intersections keep every constraint and every required property. Only a union of a type with encodings of it may become that type. The schema given is left as it was.',
  ['inputs', 'programs'], 'every schema and every JSON value within the bounds',
  'Tests compare the simplified form of a dozen fixed schemas; whether another shape still means the same is not sampled.',
  [G + 'optimize.ts'], m(['optimize', G + 'optimize.ts'], ['foldIntersection', G + 'optimize.ts'], ['simplifyUnion', G + 'optimize.ts'], ['filterUndefinedUnion', G + 'optimize.ts']), ['the schema returned by optimize()'],
  'Meaning is defined by the harness: which JSON values a schema describes.');
claim('O02', 'The document describes exactly the values of the schema',
  'The OpenAPI schema generated for a schema is well-formed and describes exactly the JSON values the schema describes: types, literals, nullability, which properties are required, all alternatives of a union and all members of an intersection. The documented simplifications are the exceptions: an alternative that accepts anything is left out, and so is a null beside undefined outside of a property.',
  ['inputs', 'programs'], 'every schema and every JSON value within the bounds',
  'Tests compare the output of fixed route files as text; none asks what the output accepts.',
  [G + 'openapi.ts', G + 'optimize.ts'], m(['schemaToOpenAPI', G + 'openapi.ts'], ['optimize', G + 'optimize.ts']), ['the schema objects of the document'],
  'Meaning is defined by the harness; oneOf is read inclusively and nullable as an additional alternative, as the generator uses them.');
claim('O03', 'Constraints, defaults and documentation reach the document unchanged',
  'Every constraint, default, example, format, title, description, flag and deprecation that a codec definition or a JSDoc comment gives a schema appears in the document under its own keyword with its own value, zero and false included, at the schema it was given to (item bounds on the array), and nothing else is added or changed. A tag without a value sets its flag; a field marked both public and private is refused.',
  ['inputs'], 'every keyword, every value of its type and every kind of schema',
  'Tests give most keywords once, with one value, on one kind of schema.',
  [G + 'openapi.ts', G + 'jsdoc.ts', G + 'optimize.ts'], m(['buildDefaultOpenAPIObject', G + 'openapi.ts'], ['parseCommentBlock', G + 'jsdoc.ts'], ['optimize', G + 'optimize.ts']), ['the schema objects of the document'],
  'The comment parser of the package the generator uses is executed symbolically too.');
claim('O04', 'Every route is documented at its own path and method, with its own contents',
  'The document has exactly one operation for every route, at its path and method, sorted, with exactly the route\'s parameters (place, name, requiredness, description, visibility), body, responses by status, summary, description, tags, visibility and example. Every named schema is a component under its name, references lead to the component of their own type, and the routes given are not changed.',
  ['inputs', 'configurations'], 'every set of routes, parameters, bodies, responses, comments and components within the bounds',
  'Tests generate documents for fixed files with one or two routes.',
  [G + 'openapi.ts', G + 'jsdoc.ts'], m(['convertRoutesToOpenAPI', G + 'openapi.ts'], ['routeToOpenAPI', G + 'openapi.ts'], ['parseCommentBlock', G + 'jsdoc.ts']), ['the document returned by convertRoutesToOpenAPI()']);
claim('O05', 'A name refers to the definition TypeScript gives it',
  'Wherever a specification names a codec, constant or object, the generator uses the definition the name has in TypeScript: the local declaration, or whatever the import leads to through named, renamed, default, namespace and star exports, over any number of modules, with modules that export or import each other. This holds for arguments, spreads, computed keys, templates and shorthand properties alike. A name without a definition is reported, not replaced by another.',
  ['programs'], 'every assignment of names to the listed forms of programs',
  'Tests resolve one import at a time, under its own name; two modules that use one name for different things do not occur.',
  [G + 'symbol.ts', G + 'resolveInit.ts', G + 'codec.ts', G + 'sourceFile.ts'], m(['parseTopLevelSymbols', G + 'symbol.ts'], ['findSymbolInitializer', G + 'resolveInit.ts'], ['findReferenceInitializer', G + 'resolveInit.ts'], ['codecIdentifier', G + 'codec.ts']), ['findSymbolInitializer() and parsePlainInitializer() on the program'],
  'Syntax trees come from the real parser, with symbolic names in place of markers; on replay the real parser reads the concrete text.');
claim('O06', 'A codec expression is documented as what the codec accepts',
  'The schema the generator reads out of a codec expression describes exactly the JSON values the codec accepts when it runs: objects, partial objects, optional properties, arrays, records, unions, intersections, literals, enumerated keys and references, however nested. The properties are those of the object, whether written inline, in a constant, behind an alias, in a function without parameters or joined by Object.assign, as plain, quoted or computed keys, shorthands or spreads, the last one of a name winning.',
  ['programs', 'inputs'], 'every codec expression of the listed shapes, with symbolic keys and literals, against every JSON value within the bounds',
  'Tests compare the schema of fixed expressions with a schema written by hand; nothing relates it to what io-ts accepts.',
  [G + 'codec.ts', G + 'knownImports.ts', G + 'ir.ts'], m(['parseCodecInitializer', G + 'codec.ts'], ['parseObjectExpression', G + 'codec.ts'], ['KNOWN_IMPORTS', G + 'knownImports.ts']), ['parseCodecInitializer() on the expression, against decode() of the same codec'],
  'The real io-ts and io-ts-http codecs are executed symbolically beside the generator. A property whose codec accepts everything is documented as required.');
claim('O07', 'A codec of a known package is documented as what it accepts',
  'The schema the generator knows for a codec of one of the known packages describes the JSON values that codec accepts: exactly those where the codec takes JSON values as they are, and every value\'s encoded form where the JSON form differs. Bounds and lengths are those the codec enforces or its name states, at the place they belong to.',
  ['inputs'], 'every listed codec and every JSON value within the bounds',
  'Tests cover a handful of the roughly ninety known codecs; none compares a schema with the codec it stands for.',
  [G + 'knownImports.ts', G + 'codec.ts'], m(['KNOWN_IMPORTS', G + 'knownImports.ts'], ['parseCodecInitializer', G + 'codec.ts']), ['parseCodecInitializer() on the codec, against decode() and encode() of the same codec'],
  'The packages of number and bigint codecs are not installed here: for those the names are the oracle.');
claim('O08', 'A documentation comment belongs to what it precedes',
  'Every constant, enumeration, member and property of a specification gets the last documentation comment between it and what comes before it, and no other: comments of neighbours, line comments and ordinary block comments never document it. This holds wherever it stands in the file, first included, however it is written, and whatever characters the file contains.',
  ['programs'], 'every arrangement of the listed forms of comments, declarations, properties and values',
  'Tests put one comment on its own line before each property of ASCII files.',
  [G + 'comments.ts', G + 'symbol.ts', G + 'codec.ts', G + 'sourceFile.ts'], m(['leadingComment', G + 'comments.ts'], ['parseTopLevelSymbols', G + 'symbol.ts'], ['parseObjectExpression', G + 'codec.ts'], ['parseSource', G + 'sourceFile.ts']), ['the comments of the declarations and schemas read from the file'],
  'Offsets come from the real parser.');
claim('O09', 'The text of a documentation comment is read as it is written',
  'The first line of text of a documentation comment is its summary, the other lines of text its description, every tag has the text behind it, and an example that is JSON, on one line or several, has the value of that JSON. This holds for every layout of the comment and whatever characters the text contains; an example with incomplete JSON is refused.',
  ['inputs'], 'every comment of the listed kinds of lines and layouts',
  'Tests read about twenty fixed comments, all in one layout.',
  [G + 'jsdoc.ts', G + 'comments.ts'], m(['parseCommentBlock', G + 'jsdoc.ts'], ['leadingComment', G + 'comments.ts']), ['parseCommentBlock() on the comment read from the text'],
  'The comment parser of the package the generator uses is executed symbolically too.');
claim('O10', 'Every route of a specification is read with the request it declares',
  'The routes of a specification are those of the object it is written as, spreads and overrides included, each with its own path, method and responses, whether they are written inline, held in constants or imported. The parameters and the body of a route are exactly those its request declares: of one request, of all members of an intersection, or of a union, where the query and the body are unions, the headers those of all members and the path parameters those of the first member that has some. Nothing depends on whether a request or a part of it is inline, named, imported or spread.',
  ['programs'], 'every specification and request of the listed forms, with symbolic names and keys',
  'Tests read about forty fixed specifications; a named member of a union or an overridden action is not among them.',
  [G + 'apiSpec.ts', G + 'route.ts'], m(['parseApiSpec', G + 'apiSpec.ts'], ['parseRoute', G + 'route.ts'], ['parseRequestUnion', G + 'route.ts'], ['derefRequestSchema', G + 'route.ts']), ['the routes returned by parseApiSpec()'],
  'The treatment of request unions is the documented approximation.');
claim('O11', 'The tool documents all of a file under its configuration',
  'The document holds the routes of every specification in the file, however apiSpec was imported, and of nothing else, with the servers their comments name and the name, version and description given as options or else by the nearest package. A custom codec definition, given as an option, in the project or by a package, applies to exactly the codec it is for: an option goes before the project, both before the package, and all other codecs, built-in ones included, are documented as before.',
  ['programs', 'configurations'], 'every specification, option, package description and set of custom codecs of the listed forms',
  'No test runs the command line tool or a custom codec file.',
  [G + 'cli.ts', G + 'project.ts', G + 'packageInfo.ts', G + 'apiSpec.ts'], m(['handler', G + 'cli.ts'], ['isApiSpec', G + 'cli.ts'], ['getCustomCodecs', G + 'project.ts'], ['parseApiSpecComment', G + 'apiSpec.ts']), ['the document the tool prints and its exit code'],
  'The tool is run on files held in memory.');
claim('O12', 'Every reference in a document leads to the definition TypeScript means',
  'Every reference in the document the tool prints leads to a component with the definition that the name has in TypeScript at the place of the reference, through modules and packages, their imports and exports, wherever in a route or another definition it stands. Definitions that share a name get components of their own, one each, and every component is referred to.',
  ['programs'], 'every assignment of names to the listed forms of programs of modules and packages',
  'Tests call the collision handling with hand-made components; no test generates a document from two definitions of one name.',
  [G + 'cli.ts', G + 'ref.ts', G + 'project.ts', G + 'openapi.ts', G + 'resolveInit.ts'], m(['handler', G + 'cli.ts'], ['collectRefs', G + 'ref.ts'], ['parseEntryPoint', G + 'project.ts'], ['findReferenceInitializer', G + 'resolveInit.ts'], ['schemaToOpenAPI', G + 'openapi.ts']), ['the document the tool prints'],
  'The tool is run on files held in memory; the program is assumed to compile.');
claim('O13', 'The document describes, end to end, the values the codecs accept',
  'The document the tool prints for a specification describes exactly the JSON values that its codecs accept when they run: the schema of a response or of a body, with the components it refers to, accepts a value if and only if decoding does, for named codecs of every kind used in every way, in the same file or imported. A parameter is required if and only if its codec does not accept being left out.',
  ['programs', 'inputs'], 'every named codec of the listed forms, every way of using it and every JSON value within the bounds',
  'No test relates a printed document to what the codecs accept; a part of the pipeline that is right by itself may not fit the next.',
  [G + 'cli.ts', G + 'codec.ts', G + 'route.ts', G + 'optimize.ts', G + 'openapi.ts'], m(['handler', G + 'cli.ts'], ['parseCodecInitializer', G + 'codec.ts'], ['parseRoute', G + 'route.ts'], ['optimize', G + 'optimize.ts'], ['schemaToOpenAPI', G + 'openapi.ts']), ['the document the tool prints, against decode() of the same codecs'],
  'The tool is run on files held in memory, the real codecs beside it. Alternatives of oneOf are read inclusively, nullable as one more alternative; a null beside undefined in a parameter is left out of the document by design.');
claim('O14', 'A document is printed only if all it depends on was read and is defined',
  'The tool prints a document only if every file it depends on could be read, every name that the routes and codecs of the specification use is defined, every route is readable and no custom codec definition it uses was refused; otherwise it prints none and exits with a failure, and a read that fails never changes the document that is printed. A codec is never documented as another one of the same name from elsewhere. An expression the tool does not understand is documented as any value or refused, never as something it is not.',
  ['programs', 'fault_sequences'], 'every use of an undefined name at the listed places, every unreadable route, every failure of a read and every failure of a custom definition of the listed forms',
  'No test runs the tool, and none makes a read fail.',
  [G + 'cli.ts', G + 'project.ts', G + 'resolveInit.ts', G + 'apiSpec.ts'], m(['handler', G + 'cli.ts'], ['parseEntryPoint', G + 'project.ts'], ['findReferenceInitializer', G + 'resolveInit.ts'], ['parseApiSpec', G + 'apiSpec.ts']), ['the document the tool prints and its exit code, under failing reads'],
  'The tool is run on files held in memory.');
claim('O15', 'A documentation comment ends up at its item in the printed document only',
  'In the printed document, the description or tag of a documentation comment stands at the item that the comment precedes in the source, a route, parameter, property, body property, response or definition, wherever that is defined, and at no other item, even if they use the same codec or refer to it. Apart from that, comments of descriptions and annotations leave the document as it is without them.',
  ['programs'], 'every program of the listed places and codecs with comments at one or two of the places; texts in part symbolic',
  'Tests check single comments in single files; that a comment does not reach other uses of a codec is a statement about all other places of the document.',
  [G + 'cli.ts', G + 'comments.ts', G + 'openapi.ts', G + 'symbol.ts', G + 'knownImports.ts'], m(['handler', G + 'cli.ts'], ['parseCommentBlock', G + 'comments.ts'], ['schemaToOpenAPI', G + 'openapi.ts'], ['parseTopLevelSymbols', G + 'symbol.ts']), ['the document the tool prints, with and without the comments'],
  'A comment with tags alone gives a parameter an empty description, and what documents an array documents its items: both are pinned by tests. The tool is run on files held in memory.');
claim('X01', 'The static types describe the values that exist at run time',
  'For every specification, the types the compiler gives to requests, decoded parameters, handler results and client calls describe exactly the values that occur there when the program runs: a program that compiles never meets a value outside of its static type, and every value within it can be given.',
  ['programs'], 'every specification and every program using it that compiles',
  'Tests compile a handful of programs; nothing compares types with values.',
  ['packages/io-ts-http/src/utils.ts', 'packages/express-wrapper/src/request.ts', 'packages/typed-express-router/src/types.ts', 'packages/superagent-wrapper/src/request.ts'], m(['Flattened', 'packages/io-ts-http/src/utils.ts'], ['RouteHandler', 'packages/express-wrapper/src/request.ts'], ['TypedRequestHandler', 'packages/typed-express-router/src/types.ts'], ['PatchedRequest', 'packages/superagent-wrapper/src/request.ts']), ['the types the compiler infers, against the values at run time']);
P[P.length - 1].na = 'The types are erased before the code runs: what decides this is the evaluation of conditional and mapped types by the TypeScript compiler on programs that use the library, and no symbolic execution of the implementation has them in it. Encoding the compiler for all programs is out of reach; compiling chosen programs would be enumeration of samples, not a solver verdict.';
