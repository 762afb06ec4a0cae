'use strict';
// The status codes the standards assign to the names in use (RFC 9110, RFC 4918, RFC 5842, RFC 6585, RFC 7725, RFC 8470, RFC 2295, RFC 2774, RFC 3229)
const CODES = {
  continue: 100, switchingProtocols: 101, processing: 102, ok: 200, created: 201, accepted: 202, nonAuthoritativeInformation: 203, noContent: 204,
  resetContent: 205, partialContent: 206, multiStatus: 207, alreadyReported: 208, imUsed: 226, multipleChoices: 300, movedPermanently: 301, found: 302,
  seeOther: 303, notModified: 304, temporaryRedirect: 307, permanentRedirect: 308, invalidRequest: 400, unauthenticated: 401, paymentRequired: 402,
  permissionDenied: 403, notFound: 404, methodNotAllowed: 405, notAcceptable: 406, proxyAuthenticationRequired: 407, requestTimeout: 408, conflict: 409,
  gone: 410, lengthRequired: 411, preconditionFailed: 412, contentTooLarge: 413, uriTooLong: 414, unsupportedMediaType: 415, rangeNotSatisfiable: 416,
  exceptionFailed: 417, imATeapot: 418, misdirectedRequest: 421, unprocessableContent: 422, locked: 423, failedDependency: 424, tooEarly: 425,
  upgradeRequired: 426, preconditionRequired: 428, rateLimitExceeded: 429, requestHeaderFieldsTooLarge: 431, unavailableForLegalReasons: 451,
  internalError: 500, notImplemented: 501, badGateway: 502, serviceUnavailable: 503, gatewayTimeout: 504, httpVersionNotSupported: 505,
  variantAlsoNegotiates: 506, insufficientStorage: 507, loopDetected: 508, notExtended: 510, networkAuthenticationRequired: 511,
};
const NAMES = Object.keys(CODES);

module.exports = {
  assumptions: ['payloads are carried as they are'],
  scenarios: [
    {
      name: 'codes',
      bounds: 'every integer status code from 0 to 700',
      labels: ['a code has a name exactly when the standard has one', 'the name leads back to the code'],
      cases: { quick: [{}], thorough: [{}] },
      run(S) {
        const h = S.load('@api-ts/io-ts-http');
        const code = S.int('code', 0, 700);
        const name = h.HttpToKeyStatus[code];
        S.observe('name', name);
        let known = false;
        for (const n of NAMES) if (CODES[n] === code) known = n;
        S.check('a code has a name exactly when the standard has one', known === false ? name === undefined : name === known);
        if (name !== undefined) S.check('the name leads back to the code', h.KeyToHttpStatus[name] === code);
      },
    },
    {
      name: 'names',
      bounds: 'every status name in use; payloads of every kind: undefined, null, boolean, number, string, array and object',
      labels: ['a name has its code', 'a response constructor gives its status and the payload itself'],
      cases: { quick: [{}], thorough: [{}] },
      run(S) {
        const h = S.load('@api-ts/io-ts-http');
        const r = S.load('@api-ts/response');
        const n = S.pick('name', NAMES);
        const payload = S.any('payload', { depth: 1, keys: ['type'], arr: 1 });
        S.check('a name has its code', S.and(h.KeyToHttpStatus[n] === CODES[n], h.HttpToKeyStatus[CODES[n]] === n));
        S.check('the tables name the same statuses', Object.keys(h.KeyToHttpStatus).sort().join() === NAMES.slice().sort().join() && Object.keys(h.HttpToKeyStatus).length === NAMES.length);
        for (const [what, made, type] of [['io-ts-http', h.Response[n](payload), CODES[n]], ['response', r.Response[n](payload), CODES[n]], ['keyed', r.KeyedResponse[n](payload), n]]) {
          S.check('a response constructor gives its status and the payload itself', made.type === type && Object.keys(made).sort().join() === 'payload,type' && made.payload === payload);
          S.observe(what, made.type);
        }
      },
    },
  ],
};
