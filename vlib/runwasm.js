// Batch driver of the generated JavaScript/WASM witness programs.
// stdin: one JSON job per line {id, dir, name, inputs:[<json text>...], sanity, mode}
// stdout: one JSON line per job {id, res:[{w:[...]|null, wtns:hex|null, err, log:[...]}]}
const fs = require("fs"), path = require("path"), readline = require("readline");
const realLog = process.stdout.write.bind(process.stdout);
let captured = [];
console.log = (...a) => { captured.push(a.map(String).join(" ")); };
console.error = (...a) => { captured.push("ERR " + a.map(String).join(" ")); };
async function job(j) {
  const js = path.join(j.dir, j.name + "_js");
  const res = [];
  let builder, code;
  try {
    builder = require(path.resolve(js, "witness_calculator.js"));
    code = fs.readFileSync(path.join(js, j.name + ".wasm"));
  } catch (e) { return { id: j.id, fatal: String(e) }; }
  if (j.mode === "hist") {
    // one calculator instance over a history of calls
    const wc = await builder(code);
    for (const inp of j.inputs) {
      const st = JSON.parse(inp);
      captured = [];
      const r = { w: null, wtns: null, bin: null, err: null };
      try {
        const sc = st.sanity ? 1 : 0;
        if (st.m === "w") r.w = (await wc.calculateWitness(st.input, sc)).map(String);
        else if (st.m === "bin") r.bin = await wc.calculateBinWitness(st.input, sc);
        else r.wtns = await wc.calculateWTNSBin(st.input, sc);
      } catch (e) { r.err = String(e && e.message !== undefined ? e.message : e); }
      r.log = captured;
      res.push(r);
    }
    // what was returned is read after the last call
    for (const r of res) for (const k of ["bin", "wtns"]) if (r[k] !== null) r[k] = Buffer.from(r[k]).toString("hex");
    return { id: j.id, res };
  }
  for (const inp of j.inputs) {
    captured = [];
    const r = { w: null, err: null, log: captured };
    try {
      const wc = await builder(code);
      const input = JSON.parse(inp);
      if (j.mode === "wtns" || j.mode === "both") r.wtns = Buffer.from(await wc.calculateWTNSBin(input, j.sanity ? 1 : 0)).toString("hex");
      if (j.mode !== "wtns") {
        const wc2 = j.mode === "both" ? await builder(code) : wc;
        if (j.mode === "both") captured = [];
        r.w = (await wc2.calculateWitness(input, j.sanity ? 1 : 0)).map(String);
      }
      r.log = captured;
    } catch (e) { r.err = String(e && e.message !== undefined ? e.message : e); r.w = null; r.wtns = null; r.log = captured; }
    res.push(r);
  }
  return { id: j.id, res };
}
const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", (l) => { chain = chain.then(async () => { const r = await job(JSON.parse(l)); realLog(JSON.stringify(r) + "\n"); }); });
