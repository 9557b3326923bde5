#![allow(dead_code)]
pub use osmgraphing::{
    configs, io,
    network::{Graph, MetricIdx, NodeIdx, EdgeIdx},
    routing::{dijkstra::{self, Dijkstra}, paths::Path},
    helpers::err,
};

pub fn write(path: &str, text: &str) {
    std::fs::write(path, text).unwrap();
}

pub fn read(path: &str) -> String {
    std::fs::read_to_string(path).unwrap()
}

/// edges: the config's edge-columns
pub fn config(map: &str, nodes: &[&str], edges: &[&str], generating: &str) -> String {
    let mut y = format!("parsing:\n  map-file: '{}'\n  nodes:\n", map);
    for n in nodes {
        y += &format!("  - {}\n", n);
    }
    y += "  edges:\n    data:\n";
    for e in edges {
        y += &format!("    - {}\n", e);
    }
    y + generating
}

pub const NODES: &[&str] = &[
    "meta: { info: 'NodeId', id: 'node-id' }",
    "metric: { unit: 'Latitude', id: 'lat' }",
    "metric: { unit: 'Longitude', id: 'lon' }",
];
pub const CH_NODES: &[&str] = &[
    "meta: { info: 'NodeId', id: 'node-id' }",
    "metric: { unit: 'Latitude', id: 'lat' }",
    "metric: { unit: 'Longitude', id: 'lon' }",
    "meta: { info: 'CHLevel', id: 'ch-level' }",
];
pub const SRC: &str = "meta: { info: 'SrcId', id: 'src-id' }";
pub const DST: &str = "meta: { info: 'DstId', id: 'dst-id' }";
pub const ID: &str = "meta: { info: 'EdgeId', id: 'edge-id' }";
pub const M0: &str = "metric: { unit: 'F64', id: 'm0' }";
pub const M1: &str = "metric: { unit: 'F64', id: 'm1' }";
pub const SC0: &str = "meta: { info: 'ShortcutIdx0', id: 'sc0' }";
pub const SC1: &str = "meta: { info: 'ShortcutIdx1', id: 'sc1' }";

pub fn parse(name: &str, yaml: &str, fmi: &str) -> err::Result<Graph> {
    write(&format!("{}.fmi", name), fmi);
    write(&format!("{}.yaml", name), yaml);
    let cfg = configs::parsing::Config::try_from_yaml(&format!("{}.yaml", name))?;
    io::network::graph::Parser::parse_and_finalize(cfg)
}

pub fn weights(alphas: &[f64], ch: bool) -> configs::routing::Config {
    configs::routing::Config {
        route_pairs_file: None,
        routing_algo: if ch {
            configs::routing::RoutingAlgo::CHDijkstra
        } else {
            configs::routing::RoutingAlgo::Dijkstra
        },
        alphas: alphas.iter().cloned().collect(),
        tolerated_scales: alphas.iter().map(|_| std::f64::INFINITY).collect(),
    }
}

/// costs of the best path, by node-ids
pub fn best(r: &mut Dijkstra, g: &Graph, cfg: &configs::routing::Config, src: i64, dst: i64) -> Option<Vec<f64>> {
    let mut p = r.compute_best_path(dijkstra::Query {
        src_idx: g.nodes().idx_from(src).unwrap(),
        dst_idx: g.nodes().idx_from(dst).unwrap(),
        graph: g,
        routing_cfg: cfg,
    })?;
    Some(p.calc_costs(g).iter().cloned().collect())
}
