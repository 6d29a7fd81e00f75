// Runs locales/generate.js of a scratch copy once or several times, and afterwards reports on the
// catalogs it has left behind.  node driver.js SCRATCH STEPS.json RESULT.json
const fs = require('fs');
const Module = require('module');
const path = require('path');

const [scratch, stepsFile, resultFile] = process.argv.slice(2);
const steps = JSON.parse(fs.readFileSync(stepsFile, 'utf-8'));
const results = [];
const write = fs.writeFileSync, read = fs.readFileSync, list = fs.readdirSync, exists = fs.existsSync;

const inside = p => path.resolve(p).startsWith(path.resolve(scratch) + path.sep);

// The packages of the registry this repository asks for are not installed: the parts of them that are used
const unescape = text => text.replace(/\\(.)/g, (_, c) => ({ n: '\n', t: '\t' })[c] || c);
const STANDINS = {
  'enotype': { commaSeparated: value => value.split(',').map(part => part.trim()).filter(part => part.length > 0) },
  'fs-extra': {},
  'gettext-parser': {
    po: {
      parse: content => {
        const translations = {};
        translations[''] = {};
        let entry = null, target = null;
        for(const line of content.toString().split('\n')) {
          const match = /^\s*(?:(msgid|msgstr)\s+)?"(.*)"\s*$/.exec(line);
          if(!match) continue;
          if(match[1] === 'msgid') { entry = { msgid: '', msgstr: [''] }; }
          if(match[1]) target = match[1];
          if(target === 'msgid') entry.msgid += unescape(match[2]);
          else entry.msgstr[0] += unescape(match[2]);
          if(target === 'msgstr') translations[''][entry.msgid] = entry;
        }
        return { charset: 'utf-8', headers: {}, translations };
      }
    }
  },
  'speakingurl': text => text
};

const load = Module._load;
Module._load = function(request, ...rest) {
  return Object.prototype.hasOwnProperty.call(STANDINS, request) ? STANDINS[request] : load.call(this, request, ...rest);
};

const contained = (what, p) => { if(!inside(p)) throw new Error(`${what} of ${p}`); };
const extra = {
  emptyDirSync: directory => {
    contained('emptyDir', directory);
    fs.mkdirSync(directory, { recursive: true });
    for(const name of list(directory)) fs.rmSync(path.join(directory, name), { recursive: true });
  },
  ensureDirSync: directory => { contained('ensureDir', directory); fs.mkdirSync(directory, { recursive: true }); },
  ensureFileSync: file => { extra.ensureDirSync(path.dirname(file)); if(!exists(file)) write(file, ''); },
  outputFileSync: (file, ...rest) => { extra.ensureDirSync(path.dirname(file)); write(file, ...rest); },
  removeSync: file => { contained('remove', file); fs.rmSync(file, { recursive: true, force: true }); },
  pathExistsSync: exists,
};
for(const name of ['emptyDir', 'ensureDir', 'ensureFile', 'outputFile', 'remove', 'pathExists'])
  extra[name] = async (...args) => extra[`${name}Sync`](...args);
for(const name of ['readFile', 'writeFile', 'readdir', 'mkdir', 'unlink', 'stat', 'rm', 'access', 'appendFile'])
  extra[name] = (...args) => typeof args[args.length - 1] === 'function' ? fs[name](...args) : fs.promises[name](...args);
Object.assign(extra, { mkdirp: extra.ensureDir, mkdirpSync: extra.ensureDirSync, mkdirs: extra.ensureDir, emptydir: extra.emptyDir });
STANDINS['fs-extra'] = Object.assign(Object.create(fs), extra);

console.log = console.warn = console.info = console.error = () => {};

let failure = null;
const failed = error => { failure = failure || { error: String(error && error.stack || error), text: error && error.text || null, name: error && error.constructor && error.constructor.name || null }; };
process.on('unhandledRejection', failed);
process.on('uncaughtException', failed);

const files = () => {
  const found = {};
  for(const directory of ['locales/translations', 'javascript/lib/messages', 'python/enolib/messages', 'ruby/lib/enolib/messages', 'php/src/messages']) {
    const full = path.join(scratch, directory);
    if(exists(full)) for(const name of list(full).sort()) if(fs.statSync(path.join(full, name)).isFile()) found[`${directory}/${name}`] = read(path.join(full, name), 'utf-8');
  }
  return found;
};

// What the generated JavaScript catalogs answer
const answers = () => {
  const found = {};
  const directory = path.join(scratch, 'javascript/lib/messages');
  for(const name of exists(directory) ? list(directory) : []) {
    if(!fs.statSync(path.join(directory, name)).isFile()) continue;
    try {
      const module = { exports: {} };
      new Function('exports', 'module', read(path.join(directory, name), 'utf-8'))(module.exports, module);
      found[name] = {};
      for(const [locale, messages] of Object.entries(module.exports)) {
        found[name][locale] = {};
        for(const [key, message] of Object.entries(messages))
          found[name][locale][key] = typeof message === 'function' ? [message.length, message(...Array.from({ length: message.length }, (_, i) => `<${i}>`))] : message;
      }
    } catch(error) { found[name] = { error: String(error) }; }
  }
  return found;
};

const exit = process.exit;
process.exit = code => { if(code) failed(new Error(`exit ${code}`)); throw new Error('exit'); };

let running = false;
process.on('beforeExit', () => {
  try { next(); } catch(error) { write(2, String(error.stack)); exit(3); }
});

const next = () => {
  if(running) {
    results.push({ failure, files: files(), javascript: answers() });
    running = false;
    failure = null;
  }
  const step = steps.shift();
  if(step === undefined) { write(resultFile, JSON.stringify(results)); exit(0); }
  if(step === null) { running = true; setImmediate(() => {}); return; }   // what there is before
  for(const [name, content] of Object.entries(step)) {
    const full = path.join(scratch, name);
    if(content === null) { if(exists(full)) fs.rmSync(full); }
    else { fs.mkdirSync(path.dirname(full), { recursive: true }); write(full, content); }
  }
  running = true;
  for(const name of Object.keys(require.cache))
    if(name.startsWith(path.join(fs.realpathSync(scratch), 'locales')) || name.endsWith('utilities.js')) delete require.cache[name];
  setImmediate(() => { try { require(path.join(scratch, 'locales/generate.js')); } catch(error) { failed(error); } });
};
