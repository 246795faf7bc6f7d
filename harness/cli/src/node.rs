//! A node that answers the calls the wallet makes, with the blocks of a scenario.
use hcore::bitcoin::absolute::LockTime;
use hcore::bitcoin::consensus::encode::serialize_hex;
use hcore::bitcoin::constants::genesis_block;
use hcore::bitcoin::transaction::Version;
use hcore::bitcoin::{Amount, Block, Network, ScriptBuf, Transaction, TxOut, Txid};
use hcore::serde_json::{self, json, Value};
use hcore::universe::{ext_op, Uni};
use hcore::Env;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct State {
    /// blocks[0] is the genesis block
    blocks: Vec<Block>,
    prev: Vec<usize>,
    txs: HashMap<Txid, Transaction>,
    tip: usize,
    script: Vec<(usize, usize)>,
    fail: usize,
    how: String,
    served: usize,
    hit: bool,
    log: Vec<Value>,
    stop: bool,
    /// from this block on answers come late, `left` times
    slow: (usize, Duration),
    left: usize,
    /// the last block sent, and the one that was when no more answers came late
    sent: usize,
    crossed: usize,
    /// the block that is never sent, and whether it was asked for
    never: usize,
    held: bool,
}
pub struct Node {
    port: u16,
    st: Mutex<State>,
}

impl Node {
    pub fn start(env: &Env, u: &Uni, s: &Value, network: Network) -> Arc<Node> {
        let listener = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut txs = HashMap::new();
        for (t, j) in s["txs"].as_array().unwrap().iter().enumerate() {
            txs.insert(u.txs[t].compute_txid(), u.txs[t].clone());
            for (i, x) in j["ins"].as_array().unwrap().iter().enumerate() {
                if x[0] == 0 {
                    // stands for the transaction outside the universe
                    let op = ext_op(env, x[1].as_u64().unwrap() as u32);
                    let none = TxOut { value: Amount::from_sat(1), script_pubkey: ScriptBuf::new() };
                    let mut output = vec![none; op.vout as usize + 1];
                    output[op.vout as usize] = u.prevouts[t][i].clone();
                    txs.insert(op.txid, Transaction { version: Version::TWO, lock_time: LockTime::ZERO, input: vec![], output });
                }
            }
        }
        let mut blocks = vec![genesis_block(network)];
        blocks.extend(u.blocks.iter().map(|b| b.0.clone()));
        let mut prev = vec![0];
        prev.extend(s["blocks"].as_array().unwrap().iter().map(|b| b["prev"].as_u64().unwrap() as usize));
        let st = State { blocks, prev, txs, tip: 0, script: vec![], fail: 0, how: String::new(), served: 0, hit: false, log: vec![], stop: false, slow: (0, Duration::ZERO), left: 0, sent: 0, crossed: 0, never: 0, held: false };
        let node = Arc::new(Node { port: listener.local_addr().unwrap().port(), st: Mutex::new(st) });
        let n = node.clone();
        std::thread::spawn(move || {
            for c in listener.incoming() {
                if n.st.lock().unwrap().stop {
                    return;
                }
                let n = n.clone();
                if let Ok(c) = c {
                    std::thread::spawn(move || n.connection(c));
                }
            }
        });
        node
    }
    pub fn url(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    pub fn stop(&self) {
        self.st.lock().unwrap().stop = true;
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
    pub fn go(&self, b: usize) {
        self.st.lock().unwrap().tip = b;
    }
    pub fn tip(&self) -> usize {
        self.st.lock().unwrap().tip
    }
    pub fn script(&self, moves: &[Value], fail: usize, how: &str) {
        let mut st = self.st.lock().unwrap();
        st.script = moves.iter().map(|m| (m[0].as_u64().unwrap() as usize, m[1].as_u64().unwrap() as usize)).collect();
        st.fail = fail;
        st.how = how.into();
        st.served = 0;
        st.hit = false;
        st.log.clear();
        // the node moves before the first block is read
        st.moves();
    }
    /// What happened since `script`, and whether the node refused something.
    pub fn take_log(&self) -> (Vec<Value>, bool) {
        let mut st = self.st.lock().unwrap();
        st.fail = 0;
        st.script.clear();
        (std::mem::take(&mut st.log), st.hit)
    }
    /// From block `slow.0` on, `times` answers come late; block `never` is never sent.
    pub fn hold(&self, slow: (usize, Duration), times: usize, never: usize) {
        let mut st = self.st.lock().unwrap();
        st.slow = slow;
        st.left = times;
        st.crossed = 0;
        st.sent = 0;
        st.never = never;
        st.held = false;
    }
    /// The last block sent, and the last one sent while answers came late.
    pub fn sent(&self) -> (usize, usize) {
        let st = self.st.lock().unwrap();
        (st.sent, st.crossed)
    }
    /// Whether a program waits for the block that is never sent.
    pub fn held(&self) -> bool {
        self.st.lock().unwrap().held
    }
    pub fn add(&self, block: Block, prev: usize) -> usize {
        let mut st = self.st.lock().unwrap();
        for t in &block.txdata {
            st.txs.insert(t.compute_txid(), t.clone());
        }
        st.blocks.push(block);
        st.prev.push(prev);
        st.blocks.len() - 1
    }
    pub fn hash(&self, b: usize) -> hcore::bitcoin::BlockHash {
        self.st.lock().unwrap().blocks[b].block_hash()
    }
    pub fn block(&self, b: usize) -> Block {
        self.st.lock().unwrap().blocks[b].clone()
    }
    pub fn number(&self, hash: &str) -> Option<usize> {
        self.st.lock().unwrap().find(hash)
    }

    fn connection(&self, c: TcpStream) {
        let _ = c.set_nodelay(true);
        let mut out = c.try_clone().unwrap();
        let mut r = BufReader::new(c);
        loop {
            let mut len = 0;
            let mut line = String::new();
            loop {
                line.clear();
                match r.read_line(&mut line) {
                    Ok(0) | Err(_) => return,
                    Ok(_) => {}
                }
                let l = line.trim();
                if l.is_empty() {
                    break;
                }
                if let Some(v) = l.to_ascii_lowercase().strip_prefix("content-length:") {
                    len = v.trim().parse().unwrap_or(0);
                }
            }
            let mut body = vec![0; len];
            if r.read_exact(&mut body).is_err() {
                return;
            }
            let Ok(q) = serde_json::from_slice::<Value>(&body) else { return };
            let (answer, wait) = {
                let mut st = self.st.lock().unwrap();
                let a = st.answer(q["method"].as_str().unwrap_or(""), &q["params"]);
                (a, st.wait())
            };
            if let Some(x) = wait {
                std::thread::sleep(x);
            }
            let v = match answer {
                Answer::Drop => return,
                Answer::Never => loop {
                    std::thread::sleep(Duration::from_millis(5));
                    let st = self.st.lock().unwrap();
                    if st.stop || !st.held {
                        return;
                    }
                },
                Answer::Is(v) => json!({"id": q["id"], "result": v, "error": null}),
                Answer::Error(code, m) => json!({"id": q["id"], "result": null, "error": {"code": code, "message": m}}),
            };
            let text = v.to_string();
            let http = format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{text}", text.len());
            if out.write_all(http.as_bytes()).is_err() {
                return;
            }
        }
    }
}

enum Answer {
    Is(Value),
    Error(i64, String),
    Drop,
    Never,
}

impl State {
    fn find(&self, hash: &str) -> Option<usize> {
        self.blocks.iter().position(|b| b.block_hash().to_string() == hash)
    }
    fn path(&self) -> Vec<usize> {
        let mut v = vec![];
        let mut b = self.tip;
        loop {
            v.push(b);
            if b == 0 {
                break;
            }
            b = self.prev[b];
        }
        v.reverse();
        v
    }
    fn wait(&mut self) -> Option<Duration> {
        if self.left == 0 && self.crossed > 0 {
            // afterwards no hurry either
            return Some(Duration::from_millis(50));
        }
        if self.left == 0 || self.slow.0 == 0 || self.sent < self.slow.0 {
            return None;
        }
        self.left -= 1;
        if self.left == 0 {
            self.crossed = self.sent;
        }
        Some(self.slow.1)
    }
    fn moves(&mut self) {
        let now = self.served;
        for (k, b) in self.script.clone() {
            if k == now {
                self.tip = b;
                self.log.push(json!({"ev": "node", "b": b}));
            }
        }
        self.script.retain(|x| x.0 != now);
    }
    fn fails(&mut self) -> Answer {
        self.hit = true;
        match self.how.as_str() {
            "drop" => Answer::Drop,
            _ => Answer::Error(-1, "the node has a problem".into()),
        }
    }
    fn answer(&mut self, method: &str, p: &Value) -> Answer {
        let path = self.path();
        let not_found = || Answer::Error(-5, "not found".into());
        match method {
            "getblockcount" => Answer::Is(json!(path.len() - 1)),
            "getbestblockhash" => Answer::Is(json!(self.blocks[self.tip].block_hash().to_string())),
            "getblockhash" => match path.get(p[0].as_u64().unwrap_or(u64::MAX) as usize) {
                Some(b) => Answer::Is(json!(self.blocks[*b].block_hash().to_string())),
                None => Answer::Error(-8, "out of range".into()),
            },
            "getblock" => {
                let Some(b) = p[0].as_str().and_then(|h| self.find(h)) else { return not_found() };
                if p[1] == 0 || p[1] == false {
                    if self.fail > 0 && self.served + 1 >= self.fail && self.how != "prevout" {
                        return self.fails();
                    }
                    if b == self.never {
                        self.held = true;
                        return Answer::Never;
                    }
                    self.served += 1;
                    self.sent = b;
                    let a = Answer::Is(json!(serialize_hex(&self.blocks[b])));
                    self.log.push(json!({"ev": "block", "b": b}));
                    self.moves();
                    return a;
                }
                let block = &self.blocks[b];
                let mut height = 0;
                let mut x = b;
                while x > 0 {
                    height += 1;
                    x = self.prev[x];
                }
                let best = path.get(height) == Some(&b);
                let mut v = json!({
                    "hash": block.block_hash().to_string(), "confirmations": if best { (path.len() - height) as i64 } else { -1 },
                    "size": block.total_size(), "strippedsize": block.total_size(), "weight": block.weight().to_wu(), "height": height,
                    "version": 2, "merkleroot": block.header.merkle_root.to_string(),
                    "tx": block.txdata.iter().map(|t| t.compute_txid().to_string()).collect::<Vec<_>>(),
                    "time": block.header.time, "mediantime": block.header.time, "nonce": block.header.nonce, "bits": "207fffff",
                    "difficulty": 1.0, "chainwork": "00", "nTx": block.txdata.len()});
                if height > 0 {
                    v["previousblockhash"] = json!(self.blocks[self.prev[b]].block_hash().to_string());
                }
                if best && height + 1 < path.len() {
                    v["nextblockhash"] = json!(self.blocks[path[height + 1]].block_hash().to_string());
                }
                Answer::Is(v)
            }
            "getrawtransaction" => {
                if self.fail > 0 && self.served >= self.fail && self.how == "prevout" {
                    return self.fails();
                }
                let Some(txid) = p[0].as_str().and_then(|t| t.parse::<Txid>().ok()) else { return not_found() };
                let Some(t) = self.txs.get(&txid) else { return not_found() };
                if p[1] == true || p[1] == 1 {
                    Answer::Is(json!({"hex": serialize_hex(t), "txid": txid.to_string(), "hash": t.compute_wtxid().to_string(), "size": 100,
                        "vsize": 100, "version": 2, "locktime": 0, "vin": [], "vout": []}))
                } else {
                    Answer::Is(json!(serialize_hex(t)))
                }
            }
            x => Answer::Error(-32601, format!("unknown method {x}")),
        }
    }
}
