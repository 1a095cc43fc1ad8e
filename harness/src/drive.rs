//! Driving the real libraries in-process.
use crate::http::Server;
use oro_client::OroClient;
use oro_common::CorgiManifest;
use node_maintainer::{NodeMaintainer, NodeMaintainerOptions, NodeMaintainerError};
use nassun::NassunOpts;
use serde_json::Value;
use std::sync::OnceLock;

/// One HTTP client for all runs (building one is slow); the registry is set per run.
pub fn client() -> OroClient {
    static C: OnceLock<OroClient> = OnceLock::new();
    C.get_or_init(|| OroClient::builder().retries(0).build()).clone()
}

pub fn nassun(url: &str, default_tag: &str) -> nassun::Nassun {
    NassunOpts::new().client(client()).registry(url.parse().unwrap()).default_tag(default_tag).build()
}

pub fn corgi(v: Value) -> CorgiManifest {
    serde_json::from_value(v).unwrap()
}

pub fn opts(s: &Server) -> NodeMaintainerOptions {
    NodeMaintainer::builder().nassun(nassun(&s.url(), "latest"))
}

pub fn resolve(o: NodeMaintainerOptions, manifest: Value) -> Result<NodeMaintainer, NodeMaintainerError> {
    async_std::task::block_on(o.resolve_manifest(corgi(manifest)))
}

/// Like `nassun`, with a cache for package contents.
pub fn nassun_cached(url: &str, cache: &std::path::Path) -> nassun::Nassun {
    NassunOpts::new().client(client()).registry(url.parse().unwrap()).cache(cache).build()
}
