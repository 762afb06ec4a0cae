'use strict';
// superagent-wrapper
const { claim, m } = require('./props.js');
const SW = 'packages/superagent-wrapper/src/';
const X = 'The HTTP client is a recording stand-in for superagent and supertest; URLs go through the real parser of whatwg-url, executed symbolically without its generated wrapper (replays use all of it).';

claim('S01', 'Path parameters arrive at the server as they were given',
  'The URL requested for a route is the base followed by the route\'s path with every occurrence of every {parameter} replaced by its value such that a server reading the path gets back exactly that value in that place, whatever characters it has. No parameter value becomes part of the query, another segment or another parameter.',
  ['inputs', 'configurations'], 'every path template, base URL and parameter value (other than empty ones and the segments . and .., which URLs cannot carry)',
  'Tests substitute one number into one path.',
  [SW + 'request.ts'], m(['substitutePathParams', SW + 'request.ts'], ['superagentRequestFactory', SW + 'request.ts'], ['supertestRequestFactory', SW + 'request.ts']), ['the URL requested'], X);
claim('S02', 'A client request carries the encoded value and nothing else',
  'A call makes one request with the route\'s method, carrying exactly the encoded query, the encoded headers and, if the encoded request has a body (a falsy one included), that body once as JSON labelled as such, big integers as decimal strings. Nothing is sent before the response is asked for, and no response status is treated as a failure by itself.',
  ['inputs', 'configurations'], 'every request declaration and every value of its type',
  'Tests send one fixed request.',
  [SW + 'request.ts'], m(['requestForRoute', SW + 'request.ts'], ['stringify', SW + 'request.ts']), ['the calls made on the HTTP client'], X);
claim('S03', 'A response is decoded by the codec of its status, or reported undecodable',
  'Decoding gives the response\'s status and its body decoded by the codec declared for that very status, for every JSON body including falsy ones. If no codec is declared or it rejects the body, the result is a decode error with a message and the body as received; the original response always comes along and decoding never rejects, except with a transport failure\'s own error.',
  ['inputs'], 'every status, body and codec verdict',
  'Tests decode object bodies of two statuses.',
  [SW + 'request.ts'], m(['patchRequest', SW + 'request.ts'], ['hasCodecForStatus', SW + 'request.ts']), ['the result of decode()'], X);
claim('S04', 'An expected response is returned exactly when it is the one received',
  'Decoding with an expected status resolves exactly when that status was received and its body decodes, with the decoded response. In every other case it rejects with a decode error that carries the decoded response and the original, and names the status received.',
  ['inputs'], 'every expected and received status, body and codec verdict',
  'Tests try one expected status against three responses.',
  [SW + 'request.ts'], m(['decodeExpecting', SW + 'request.ts']), ['the result of decodeExpecting()'], X);
claim('S05', 'Client and server of one specification understand each other',
  'What a client is called with is what the server\'s handler receives, and the response the handler gives is what the client decodes, for both kinds of server, whatever parts of the request the values travel in. A result that does not belong to the declared response never reaches the client as that response.',
  ['inputs', 'configurations'], 'every specification and value within the bounds, declared and undeclared results',
  'Tests make four fixed calls against one specification.',
  [SW + 'request.ts', 'packages/express-wrapper/src/request.ts', 'packages/typed-express-router/src/index.ts', 'packages/io-ts-http/src/combinators.ts'], m(['requestForRoute', SW + 'request.ts'], ['handleRequest', 'packages/express-wrapper/src/request.ts'], ['res.sendEncoded', 'packages/typed-express-router/src/index.ts']), ['the handler\'s input and the client\'s result'], X);
claim('S06', 'A client offers exactly the routes of its specification',
  'A client has, for every name of the specification, exactly the methods the specification has a route for, and a call goes to that route\'s path with that route\'s method and codec. A specification with an explicitly undefined route is refused.',
  ['configurations', 'inputs'], 'every specification over two names and five methods, with stray and inherited keys',
  'Tests build one client with two routes.',
  [SW + 'routes.ts'], m(['buildApiClient', SW + 'routes.ts']), ['the client and the requests it makes'], X);
