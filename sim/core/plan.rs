//! A plan is one simulated execution, complete: workload, schedule and faults. Replay is a pure function of it.
use crate::json::J;

#[derive(Clone, Debug, PartialEq)]
pub struct T { pub api: String, pub text: String }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan { pub prop: String, pub kind: String, pub seed: u64, pub idx: u64, pub texts: Vec<T>, pub ops: Vec<Vec<i64>>, pub nums: Vec<(String, i64)> }

impl Plan {
    pub fn new(prop: &str, kind: &str) -> Plan { Plan { prop: prop.into(), kind: kind.into(), ..Default::default() } }
    pub fn text(&mut self, api: &str, text: &str) -> usize { self.texts.push(T { api: api.into(), text: text.into() }); self.texts.len() - 1 }
    pub fn num(&self, k: &str) -> i64 { self.nums.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0) }
    pub fn put(&mut self, k: &str, v: i64) { for e in self.nums.iter_mut() { if e.0 == k { e.1 = v; return } } self.nums.push((k.into(), v)) }
    pub fn json(&self) -> J {
        let texts = self.texts.iter().map(|t| J::obj().set("api", J::s(&t.api)).set("text", J::s(&t.text))).collect();
        let ops = self.ops.iter().map(|o| J::Arr(o.iter().map(|x| J::Int(*x)).collect())).collect();
        let mut nums = J::obj();
        for (k, v) in &self.nums { nums.put(k, J::Int(*v)) }
        J::obj().set("property", J::s(&self.prop)).set("kind", J::s(&self.kind)).set("seed", J::Int(self.seed as i64)).set("run", J::Int(self.idx as i64))
            .set("texts", J::Arr(texts)).set("ops", J::Arr(ops)).set("nums", nums)
    }
    pub fn from(j: &J) -> Plan {
        let g = |k: &str| j.get(k).cloned().unwrap_or(J::Null);
        let mut p = Plan { prop: g("property").str().into(), kind: g("kind").str().into(), seed: g("seed").int() as u64, idx: g("run").int() as u64, ..Default::default() };
        for t in g("texts").arr() { let f = |k: &str| t.get(k).map(|x| x.str().to_string()).unwrap_or_default(); p.texts.push(T { api: f("api"), text: f("text") }) }
        for o in g("ops").arr() { p.ops.push(o.arr().iter().map(|x| x.int()).collect()) }
        if let J::Obj(o) = g("nums") { for (k, v) in o { p.nums.push((k, v.int())) } }
        p
    }
    pub fn size(&self) -> usize { self.texts.iter().map(|t| 3 + t.text.chars().count()).sum::<usize>() + 5 * self.ops.len() }
}
