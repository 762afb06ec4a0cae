'use strict';
// typed-express-router and express-wrapper
const { claim, m } = require('./props.js');
const TER = 'packages/typed-express-router/src/';
const EW = 'packages/express-wrapper/src/';
const X = 'express itself is a model that runs a registered chain layer by layer and refuses to send twice, except where a scenario says it is the real router.';

claim('T01', 'A checked route runs its handlers only on valid requests',
  'A handler of a route added with get, post, put, patch or delete runs exactly when the request decodes under the route\'s request codec, applied once to the request\'s own params, query, headers and body, and it sees the decoded value as req.decoded and can use res.sendEncoded. A rejected request gets exactly one answer, the formatted errors under the decode error status, and no handler of the route runs; handlers of an accepted request run in the order given, each passing to the next, and their failures reach express.',
  ['inputs', 'configurations'], 'every request, codec verdict, method, handler chain and error option',
  'Tests send a few fixed valid and invalid requests to one or two routes.',
  [TER + 'index.ts'], m(['wrapRouter', TER + 'index.ts'], ['makeAddRoute', TER + 'index.ts']), ['the requests a handler receives and the response sent'], X);
claim('T02', 'An unchecked route hands its handlers the verdict, whatever it is',
  'A handler added with an Unchecked method runs for every request and finds the undisguised decode result, success or failure, in req.decoded. The router never answers the request itself, whatever the error options are.',
  ['inputs', 'configurations'], 'every request, codec verdict, method, handler chain and error option',
  'Tests exercise one invalid and one valid request.',
  [TER + 'index.ts'], m(['makeAddUncheckedRoute', TER + 'index.ts']), ['req.decoded in the handler, and the response'], X);
claim('T03', 'Only encoded members of a declared response type leave a typed route',
  'sendEncoded sends a payload only if the route declares a response for that status, given as a code or a name, and the payload belongs to its type; the body is the payload encoded by that codec, under the matching status code. In every other case, an encoder that throws and a body that cannot be serialised included, exactly one response is sent, made by the encode error options; nothing is thrown at the handler and the response is always complete.',
  ['inputs', 'configurations'], 'every status, payload, response declaration and encoder behaviour',
  'Tests use one or two routes with correct and one incorrect payload.',
  [TER + 'index.ts'], m(['res.sendEncoded', TER + 'index.ts']), ['the response sent'], X);
claim('T04', 'The after-response hook runs once per successful response and is harmless',
  'The after-encoded-response hook runs exactly once after each response that sendEncoded sends successfully, with the status code, the payload, the request and the response, and never for an encoding error. A hook given for the route replaces the router\'s, and a hook that throws changes neither the response nor the number of responses.',
  ['inputs', 'configurations', 'fault_sequences'], 'every placement and failure of the hook, and every payload and status',
  'One test checks that a hook is called; none lets it fail.',
  [TER + 'index.ts'], m(['afterEncodedResponseSent', TER + 'index.ts']), ['the calls of the hook and the response sent'], X);
claim('T05', 'Route options override router options, which override the defaults',
  'For each of the error formatters, the error status functions and the after-response hook, the one that takes effect is the route\'s if given there, else the router\'s, else the documented default. Each option is chosen independently of the others, on created and wrapped routers, for checked and unchecked routes; they are given the error and the request.',
  ['configurations', 'inputs'], 'every placement of every option and every outcome of the request',
  'Tests override one formatter at one level.',
  [TER + 'index.ts'], m(['wrapRouter', TER + 'index.ts'], ['defaultDecodeErrorFormatter', TER + 'errors.ts']), ['the response sent'], X);
claim('T06', 'Routes are served under their specified path, aliases and method only',
  'Adding a route registers it under the specification\'s path and each alias, in order and verbatim, with the method\'s own verb, and all of them run the same handlers; nothing else is registered. Adding a route the specification does not have is refused at once, and in everything else the typed router behaves as the express router it wraps.',
  ['inputs', 'configurations'], 'every specification, alias list, order of additions and request',
  'Tests register one or two routes with at most one alias.',
  [TER + 'index.ts'], m(['wrapRouter', TER + 'index.ts'], ['apiTsPathToExpress', TER + 'path.ts']), ['the registrations on the express router and the requests a handler receives'], X);
claim('T07', 'Router middleware sees the decode result and guards the routes after it',
  'A middleware added with use runs, in order of addition, before the handlers of every route added after it and of no route added before, after decoding and before validation, so that it sees the decode result itself, the API name and the route. A middleware that does not pass on ends the request; one that fails stops it.',
  ['inputs', 'configurations', 'histories'], 'every order of additions of middleware and routes, every middleware behaviour and codec verdict',
  'Tests add one middleware before one route.',
  [TER + 'index.ts'], m(['wrapRouter', TER + 'index.ts']), ['the order in which middleware and handlers run, and what they see'], X);
claim('T08', 'Concurrent requests never see each other',
  'However the steps of several requests to the same or different routes are interleaved, each request keeps its own decoded value, API name and route, gets its own answer, and ends its own tracing spans.',
  ['schedules', 'inputs'], 'every interleaving of requests suspended in middleware and handlers',
  'Tests run requests one after another.',
  [TER + 'index.ts'], m(['makeAddRoute', TER + 'index.ts']), ['what each request\'s handler sees and what is sent to it'], X);
claim('T09', 'Tracing records every request and never changes the outcome',
  'With the tracing library present each request gets exactly one decode span and each sendEncoded call one encode span, carrying the API name, method, path and status, failures recorded, and each ended exactly once with nothing written to it afterwards. Without the library, or with it, requests and responses are the same.',
  ['inputs', 'configurations', 'fault_sequences'], 'every request outcome and response, with and without the tracing library',
  'The tracing tests cover a few outcomes and one configuration per run.',
  [TER + 'index.ts', TER + 'telemetry.ts'], m(['createDecodeSpan', TER + 'telemetry.ts'], ['endSpan', TER + 'telemetry.ts']), ['the spans started and ended, and the response'], X);
claim('T10', 'Path templates become router paths faithfully',
  'Every {name} in a specified path becomes the router parameter :name, whatever its position, and every other character stays as it is.',
  ['inputs'], 'every path string',
  'Tests convert four fixed paths.',
  [TER + 'path.ts'], m(['apiTsPathToExpress', TER + 'path.ts']), ['the path registered']);

claim('E01', 'A handler\'s result is sent encoded under its declared status, or not at all',
  'A server built from a specification answers with the handler\'s payload encoded by the codec that the route declares for the result\'s type, be the type a status code or a status name and the response declared under a code or a name, under the matching status code. Any other result, an encoder that throws and a body that cannot be serialised included, is answered by exactly one empty 500, and an encoder supplied by the application replaces all of this. What such an encoder hands to sendEncoded is encoded alike, and a failure is answered as the error options say, by default with a 500 and an empty object.',
  ['inputs', 'configurations'], 'every result type and payload, response declaration and encoder behaviour',
  'Tests return four fixed results that all fit their routes.',
  [EW + 'response.ts', EW + 'request.ts'], m(['defaultResponseEncoder', EW + 'response.ts'], ['handleRequest', EW + 'request.ts']), ['the response sent'], X);
claim('E02', 'Route middleware runs in order and its results reach the handler',
  'The middleware of a route runs strictly in order, each after the one before it has passed on, and the handler runs exactly when all have, once. Its input is the decoded request with the properties that value-producing middleware returned, later ones winning, if the route was made with routeHandler, and the decoded request alone otherwise; the decoded request itself is never modified.',
  ['inputs', 'configurations', 'fault_sequences'], 'every chain of plain and value-producing middleware, passing on at once or later, answering, failing or throwing, and every value they return',
  'Tests run six fixed chains that return constants, and never look at failures without routeHandler.',
  [EW + 'middleware.ts', EW + 'request.ts'], m(['runMiddlewareChain', EW + 'middleware.ts'], ['runMiddlewareChainIgnoringResults', EW + 'middleware.ts'], ['middlewareFn', EW + 'middleware.ts']), ['the order of calls and the handler\'s input'], X);
claim('E03', 'A failing handler or middleware never looks like a success',
  'When a handler or a middleware of a route throws, rejects, fails through next or returns something that is no response, the request is answered exactly once, with an empty error response: 500 unless an error status was set beforehand. A response sent before the failure is left alone, the handler does not run after a failed middleware, and nothing escapes as an unhandled failure.',
  ['inputs', 'fault_sequences'], 'every place and kind of failure and every state of the response at that point',
  'No test sends a request whose handler or middleware fails.',
  [EW + 'request.ts', EW + 'middleware.ts'], m(['handleRequest', EW + 'request.ts']), ['the response sent'], X);
claim('E04', 'A server serves every route of its specification with its own handler',
  'A server built from a specification serves every route of it, under its own path and method, with the handler given for that route, which receives that request decoded by that route\'s codec, and serves nothing else. A request that does not decode runs no handler and is answered with the decode error formatter and status, by default a 400 with all messages in one error text; what the application configures first comes first.',
  ['inputs', 'configurations'], 'every specification over two names and five methods, every request and codec verdict, and every choice of error options',
  'Tests serve one specification of two routes.',
  [EW + 'index.ts', EW + 'request.ts'], m(['routerForApiSpec', EW + 'index.ts'], ['createServer', EW + 'index.ts']), ['the registrations, the handlers\' inputs and the responses'], X);
