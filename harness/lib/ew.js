'use strict';
// express-wrapper set up over the router and response models
const { mkRouter, dispatch, mkRes } = require('./express');
const { probe } = require('./ter');

function setup(S) {
  const log = [];
  const apps = [];
  const Router = () => mkRouter(log);
  const express = () => {
    const app = { used: [] };
    for (const m of ['get', 'post', 'put', 'delete', 'patch']) app[m] = (...a) => { app.used.push([m, ...a]); return app; };
    app.use = (...a) => { app.used.push(['use', ...a]); return app; };
    apps.push(app);
    return app;
  };
  express.Router = Router;
  express.default = express;
  express.__esModule = true;
  S.stub('express', express);
  S.stubMissing('@opentelemetry/api');
  return { m: S.load('@api-ts/express-wrapper'), t: S.load('io-ts'), h: S.load('@api-ts/io-ts-http'), log, apps };
}
// one route, ready to be sent requests; returns its registered chain
function one(S, env, route, handler, opts) {
  env.m.routerForApiSpec(Object.assign({ spec: { api: { [route.method.toLowerCase()]: route } }, routeHandlers: { api: { [route.method.toLowerCase()]: handler } } }, opts));
  return env.log[env.log.length - 1].chain;
}
async function send(S, chain, req, res) {
  const out = dispatch(S, chain, req, res);
  await S.settle();
  return out;
}
module.exports = { setup, one, send, probe, mkRes };
