//! The events a bip157 node sends, as in bip157 0.2; there, only the node can make them.
pub use bitcoin::bip158::BlockFilter;
pub use bitcoin::block::Header;
pub use bitcoin::{Address, Block, BlockHash, Network, ScriptBuf, Transaction, Txid};
use std::collections::BTreeMap;
pub use tokio;
pub use tokio::sync::mpsc::{Receiver, UnboundedReceiver};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IndexedFilter {
    height: u32,
    hash: BlockHash,
    contents: Vec<u8>,
}
impl IndexedFilter {
    /// Only in the stand-in.
    pub fn new(height: u32, hash: BlockHash, contents: Vec<u8>) -> Self {
        Self { height, hash, contents }
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    pub fn block_hash(&self) -> BlockHash {
        self.hash
    }
    pub fn contains_any<'a>(&'a self, scripts: impl Iterator<Item = &'a ScriptBuf>) -> bool {
        BlockFilter::new(&self.contents).match_any(&self.hash, scripts.map(|s| s.as_bytes())).unwrap_or(false)
    }
    pub fn block_filter(self) -> BlockFilter {
        BlockFilter::new(&self.contents)
    }
    pub fn into_contents(self) -> Vec<u8> {
        self.contents
    }
}
impl PartialOrd for IndexedFilter {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for IndexedFilter {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.height.cmp(&other.height)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct HeaderCheckpoint {
    pub height: u32,
    pub hash: BlockHash,
}
#[derive(Debug, Clone)]
pub struct SyncUpdate {
    pub tip: HeaderCheckpoint,
    pub recent_history: BTreeMap<u32, Header>,
}
impl SyncUpdate {
    pub fn tip(&self) -> HeaderCheckpoint {
        self.tip
    }
    pub fn recent_history(&self) -> &BTreeMap<u32, Header> {
        &self.recent_history
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct IndexedHeader {
    pub height: u32,
    pub header: Header,
}
#[derive(Debug, Clone)]
pub enum BlockHeaderChanges {
    Connected(IndexedHeader),
    Reorganized { accepted: Vec<IndexedHeader>, reorganized: Vec<IndexedHeader> },
    ForkAdded(IndexedHeader),
}
#[derive(Debug, Clone)]
pub struct IndexedBlock {
    pub height: u32,
    pub block: Block,
}
#[derive(Debug, Clone)]
pub enum Event {
    Block(IndexedBlock),
    ChainUpdate(BlockHeaderChanges),
    FiltersSynced(SyncUpdate),
    IndexedFilter(IndexedFilter),
}

// ------------------------------------------------------------------- the node
// Kyoto's node finds its peers, downloads headers and filters from a checkpoint on, and answers
// requests for blocks. Here a script, in the file SP_NODE names, says what it finds:
//   network   its network
//   chain     [hash, header is not needed] of the best chain at the end, lowest first, genesis first
//   events    {"filter": [height, hash, hex]}, {"tip": [height, hash]} or {"stop": true}
//   asked     file to which the hashes of requested blocks are written
//   blocks    hash -> {"height", "hex"} or {"refuse": "unknown" or "gone"}
pub mod chain {
    use super::HeaderCheckpoint;
    pub enum ChainState {
        Snapshot(Vec<super::Header>),
        Checkpoint(HeaderCheckpoint),
    }
}
use bitcoin::constants::genesis_block;
pub use bitcoin::p2p::address::AddrV2;
pub use bitcoin::p2p::ServiceFlags;
use std::sync::Arc;
use tokio::sync::{mpsc, oneshot, Notify};

impl HeaderCheckpoint {
    pub fn new(height: impl Into<u32>, hash: BlockHash) -> Self {
        HeaderCheckpoint { height: height.into(), hash }
    }
    pub fn from_genesis(network: Network) -> Self {
        HeaderCheckpoint { height: 0, hash: genesis_block(network).block_hash() }
    }
    pub fn taproot_activation() -> Self {
        let hash = "000000000000000000013712fc242ee6dd28476d0e9c931c75f83e6974c6bccc";
        HeaderCheckpoint { height: 709_631, hash: hash.parse().unwrap() }
    }
}

#[derive(Debug, Clone)]
pub struct TrustedPeer {
    pub address: AddrV2,
    pub port: Option<u16>,
    pub known_services: ServiceFlags,
}
impl TrustedPeer {
    pub fn new(address: AddrV2, port: Option<u16>, services: ServiceFlags) -> Self {
        TrustedPeer { address, port, known_services: services }
    }
}

#[derive(Debug)]
pub struct Info(String);
#[derive(Debug)]
pub struct Warning(String);
impl std::fmt::Display for Info {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Warning {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub struct Builder {
    network: Network,
    state: Option<chain::ChainState>,
    peers: Vec<TrustedPeer>,
}
impl Builder {
    pub fn new(network: Network) -> Self {
        Builder { network, state: None, peers: vec![] }
    }
    pub fn chain_state(mut self, state: chain::ChainState) -> Self {
        self.state = Some(state);
        self
    }
    pub fn add_peers(mut self, peers: impl IntoIterator<Item = TrustedPeer>) -> Self {
        self.peers.extend(peers);
        self
    }
    pub fn add_peer(self, peer: impl Into<TrustedPeer>) -> Self {
        self.add_peers([peer.into()])
    }
    pub fn required_peers(self, _n: u8) -> Self {
        self
    }
    pub fn build(self) -> (Node, Client) {
        let file = std::env::var("SP_NODE").expect("SP_NODE names the script of the node");
        let script: serde_json::Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
        let from = match self.state {
            Some(chain::ChainState::Checkpoint(c)) => Some(c),
            Some(chain::ChainState::Snapshot(_)) => unimplemented!("not in the stand-in"),
            None => None,
        };
        let from = from.unwrap_or(HeaderCheckpoint::from_genesis(self.network));
        let stop = Arc::new(Notify::new());
        let (info_tx, info_rx) = mpsc::channel(8);
        let (warn_tx, warn_rx) = mpsc::unbounded_channel();
        let (events, event_rx) = mpsc::unbounded_channel();
        let script = Arc::new(script);
        let requester = Requester { script: script.clone(), stop: stop.clone() };
        (
            Node { script, network: self.network, peers: self.peers.len(), from, events, _info: info_tx, _warn: warn_tx, stop },
            Client { requester, info_rx, warn_rx, event_rx },
        )
    }
}
pub struct Client {
    pub requester: Requester,
    pub info_rx: mpsc::Receiver<Info>,
    pub warn_rx: mpsc::UnboundedReceiver<Warning>,
    pub event_rx: mpsc::UnboundedReceiver<Event>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FetchBlockError {
    SendError,
    RecvError,
    UnknownHash,
}
impl std::fmt::Display for FetchBlockError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for FetchBlockError {}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ClientError {
    SendError,
}
impl std::fmt::Display for ClientError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ClientError {}

#[derive(Debug, Clone)]
pub struct Requester {
    script: Arc<serde_json::Value>,
    stop: Arc<Notify>,
}
impl Requester {
    pub fn request_block(&self, hash: BlockHash) -> Result<oneshot::Receiver<Result<IndexedBlock, FetchBlockError>>, FetchBlockError> {
        let (tx, rx) = oneshot::channel();
        let b = &self.script["blocks"][hash.to_string()];
        if let Some(asked) = self.script["asked"].as_str() {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(asked).unwrap();
            writeln!(f, "{hash}").unwrap();
        }
        match b["refuse"].as_str() {
            Some("send") => return Err(FetchBlockError::SendError),
            // the node ends without an answer
            Some("gone") => return Ok(rx),
            Some(_) => {
                let _ = tx.send(Err(FetchBlockError::UnknownHash));
                return Ok(rx);
            }
            None => {}
        }
        let answer = match b["hex"].as_str() {
            None => Err(FetchBlockError::UnknownHash),
            Some(x) => {
                let block: Block = bitcoin::consensus::encode::deserialize_hex(x).unwrap();
                Ok(IndexedBlock { height: b["height"].as_u64().unwrap() as u32, block })
            }
        };
        let _ = tx.send(answer);
        Ok(rx)
    }
    pub async fn get_block(&self, hash: BlockHash) -> Result<IndexedBlock, FetchBlockError> {
        self.request_block(hash)?.await.map_err(|_| FetchBlockError::RecvError)?
    }
    pub fn shutdown(&self) -> Result<(), ClientError> {
        self.stop.notify_one();
        Ok(())
    }
    pub fn is_running(&self) -> bool {
        true
    }
}

#[derive(Debug)]
pub enum NodeError {
    NoPeers,
    Stopped,
}
impl std::fmt::Display for NodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for NodeError {}
pub struct Node {
    script: Arc<serde_json::Value>,
    network: Network,
    peers: usize,
    from: HeaderCheckpoint,
    events: mpsc::UnboundedSender<Event>,
    _info: mpsc::Sender<Info>,
    _warn: mpsc::UnboundedSender<Warning>,
    stop: Arc<Notify>,
}
impl Node {
    pub async fn run(self) -> Result<(), NodeError> {
        let s = &self.script;
        let hash = |v: &serde_json::Value| v.as_str().unwrap().parse::<BlockHash>().unwrap();
        // it has nobody to ask, or nothing to start from
        let known = s["chain"].as_array().unwrap().get(self.from.height as usize).map(&hash) == Some(self.from.hash);
        if self.peers == 0 || s["network"] != self.network.to_string() || !known {
            return Err(NodeError::NoPeers);
        }
        let _ = self._info.try_send(Info("connected".into()));
        for e in s["events"].as_array().unwrap() {
            let event = if let Some(f) = e.get("filter") {
                let height = f[0].as_u64().unwrap() as u32;
                if height <= self.from.height {
                    continue;
                }
                let contents = bitcoin::hex::FromHex::from_hex(f[2].as_str().unwrap()).unwrap();
                Event::IndexedFilter(IndexedFilter::new(height, hash(&f[1]), contents))
            } else if let Some(t) = e.get("tip") {
                let tip = HeaderCheckpoint { height: t[0].as_u64().unwrap() as u32, hash: hash(&t[1]) };
                let recent = t[2].as_array().into_iter().flatten();
                let recent_history = recent
                    .map(|x| (x[0].as_u64().unwrap() as u32, bitcoin::consensus::encode::deserialize_hex(x[1].as_str().unwrap()).unwrap()))
                    .collect();
                Event::FiltersSynced(SyncUpdate { tip, recent_history })
            } else {
                return Err(NodeError::Stopped);
            };
            if self.events.send(event).is_err() {
                break;
            }
        }
        self.stop.notified().await;
        Ok(())
    }
}
