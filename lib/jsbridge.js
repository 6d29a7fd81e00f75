// Serves the JavaScript library to lib/jseno.py: one JSON message per line on stdin and stdout, synchronous, with callbacks.
'use strict';
const fs = require('fs');
const path = require('path');

const LIB = path.join(process.argv[2], 'javascript', 'lib');
const PROBE = JSON.parse(process.argv[3]);     // {constants: {name: text}, functions: {camelName: snake_name}}

// ------------------------------------------------------------ messages

const pending = Buffer.alloc(1 << 16);
let buffered = Buffer.alloc(0);

const receive = () => {
  while(true) {
    const end = buffered.indexOf(10);
    if(end !== -1) {
      const line = buffered.subarray(0, end).toString('latin1');
      buffered = buffered.subarray(end + 1);
      return JSON.parse(line);
    }
    let n;
    try {
      n = fs.readSync(0, pending, 0, pending.length, null);
    } catch(error) {
      if(error.code === 'EAGAIN') continue;
      throw error;
    }
    if(n === 0) process.exit(0);
    buffered = Buffer.concat([buffered, pending.subarray(0, n)]);
  }
};

const escapeUnicode = c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0');
const ascii = text => text.replace(/[\u007f-\uffff]/g, escapeUnicode);

const send = message => {
  const data = Buffer.from(ascii(JSON.stringify(message)) + '\n', 'latin1');
  for(let done = 0; done < data.length;) {
    try {
      done += fs.writeSync(1, data, done);
    } catch(error) {
      if(error.code !== 'EAGAIN') throw error;
    }
  }
};

// ------------------------------------------------------------ values

const ids = new WeakMap();
const objects = new Map();   // id => [object, times sent]
let nextId = 1;

class Foreign {              // a value of the other side
  constructor(id) { this.id = id; }
}

const methods = object => {
  const names = new Set();
  for(let p = object; p && p !== Object.prototype; p = Object.getPrototypeOf(p))
    for(const name of Object.getOwnPropertyNames(p))
      if(name !== 'constructor' && !name.startsWith('_') && typeof Object.getOwnPropertyDescriptor(p, name).value === 'function') names.add(name);
  return [...names];
};

const isEnoError = value => value instanceof Error && 'snippet' in value && 'selection' in value;

const encodeError = error => ({ c: error.constructor.name, text: error.text, snippet: error.snippet, selection: error.selection === undefined ? null : error.selection, message: error.message, cursor: error.cursor === undefined ? null : error.cursor });

const encode = value => {
  if(value === undefined) return { u: 1 };
  if(value === null || typeof value === 'string' || typeof value === 'number' || typeof value === 'boolean') return value;
  if(value instanceof Foreign) return { f: value.id };
  if(Array.isArray(value)) return { l: value.map(encode) };
  if(isEnoError(value)) return { e: encodeError(value) };
  if(typeof value === 'object') {
    const name = value.constructor && value.constructor.name;
    if(name !== undefined && name !== 'Object') {
      let id = ids.get(value);
      if(id === undefined) {
        id = nextId++;
        ids.set(value, id);
      }
      const held = objects.get(id);
      if(held) held[1]++;
      else objects.set(id, [value, 1]);
      return { o: id, c: name };
    }
    return { d: Object.keys(value).map(key => [key, encode(value[key])]) };
  }
  return { x: String(value) };
};

const decode = value => {
  if(value === null || typeof value !== 'object') return value;
  if('l' in value) return value.l.map(decode);
  if('d' in value) {
    const object = {};
    for(const [key, v] of value.d) object[key] = decode(v);
    return object;
  }
  if('o' in value) return objects.get(value.o)[0];
  if('f' in value) return new Foreign(value.f);
  if('u' in value) return undefined;
  if('cb' in value) {
    const fn = (...args) => callback(value.cb, args);
    return 'name' in value ? Object.defineProperty(fn, 'name', { value: value.name }) : fn;
  }
  if('special' in value) return special(value.special);
  throw new Error('cannot decode ' + JSON.stringify(value));
};

const callback = (id, args) => {
  send({ k: id, a: args.map(encode), n: args.length });
  const reply = serve(true);
  if('t' in reply) throw reply.t;
  return decode(reply.r);
};

// ------------------------------------------------------------ the library

const load = () => {
  for(const name of Object.keys(require.cache))
    if(name.startsWith(LIB)) delete require.cache[name];
  const library = require(path.join(LIB, 'main.js'));
  return {
    library,
    locales: Object.fromEntries(['en', 'de', 'es'].map(name => [name, require(path.join(LIB, 'messages', name + '.js'))[name]])),
    reporters: { text: library.TextReporter, html: library.HtmlReporter, terminal: library.TerminalReporter }
  };
};

// counts the blocks of the library that are run; has to start before the library is loaded
const inspector = process.argv[4] === 'count' ? new (require('inspector').Session)() : null;
const profiler = (method, options) => {
  let result;
  inspector.post('Profiler.' + method, options, (error, answer) => { if(error) throw new Error(JSON.stringify(error)); result = answer; });
  return result;
};
if(inspector) {
  inspector.connect();
  profiler('enable');
  profiler('startPreciseCoverage', { callCount: true, detailed: true });
}

const blocks = () => {
  let count = 0;
  for(const script of profiler('takePreciseCoverage').result)
    if(script.url.includes(LIB + path.sep))
      for(const fn of script.functions)
        for(const range of fn.ranges) count += range.count;
  return count;
};

const libraries = [null, null];     // the one in use and a fresh one

const argument = value => typeof value === 'string' ? ascii(JSON.stringify(value)) : JSON.stringify(value === null || value === undefined ? 'None' : String(value));

const probe = { ...PROBE.constants };
for(const [camel, snake] of Object.entries(PROBE.functions))
  probe[camel] = (...args) => `${snake}|[${args.map(argument).join(', ')}]`;

const special = ([kind, name, which]) => kind === 'locale' ? (name === 'probe' ? probe : libraries[which].locales[name]) : libraries[which].reporters[name];

const perform = request => {
  if(request.free) {
    for(const [id, times] of request.free) {
      const held = objects.get(id);
      held[1] -= times;
      if(held[1] <= 0) objects.delete(id);
    }
  }
  const args = (request.a || []).map(decode);
  switch(request.m) {
    case 'call': {
      const target = objects.get(request.o)[0];
      return target[request.n](...args);
    }
    case 'string': return String(objects.get(request.o)[0]);
    case 'methods': return methods(objects.get(request.o)[0]);
    case 'parse':
    case 'lookup':
    case 'register': return libraries[request.w].library[request.m](...args);
    case 'message': {
      const value = libraries[request.w].locales[request.n][request.k];
      return typeof value === 'function' ? value(...args) : value;
    }
    case 'load': libraries[1] = load(); return null;
    case 'blocks': return blocks();
    case 'cpu': { const u = process.cpuUsage(); return (u.user + u.system) / 1e6; }
    default: throw new Error('unknown request ' + request.m);
  }
};

const serve = nested => {
  while(true) {
    const request = receive();
    if(request.m === undefined) {
      if(!nested) throw new Error('reply without a call');
      return request;
    }
    let answer;
    try {
      answer = { r: encode(perform(request)) };
    } catch(error) {
      if(isEnoError(error)) answer = { e: encodeError(error) };
      else if(error instanceof Error) answer = { x: [error.constructor.name, error.message, String(error.stack)] };
      else answer = { t: String(error) };
    }
    send(answer);
  }
};

libraries[0] = load();
serve(false);
