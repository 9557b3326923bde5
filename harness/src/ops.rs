use osmgraphing::{
    configs,
    defaults::capacity::DimVec,
    io,
    network::{EdgeIdx, Graph, MetricIdx, NodeIdx},
    routing::{
        dijkstra::{self, Dijkstra},
        paths::Path,
    },
};
#[cfg(feature = "gpl")]
use osmgraphing::routing::explorating::ConvexHullExplorator;
use serde_json::{json, Value};
use std::collections::HashMap;

pub struct World {
    graphs: HashMap<String, Graph>,
    routers: HashMap<String, Dijkstra>,
    #[cfg(feature = "gpl")]
    explorators: HashMap<String, ConvexHullExplorator>,
}

fn f(x: f64) -> Value {
    if x.is_finite() {
        json!(x)
    } else if x.is_nan() {
        json!("nan")
    } else if x > 0.0 {
        json!("inf")
    } else {
        json!("-inf")
    }
}

fn fs(xs: &[f64]) -> Value {
    Value::Array(xs.iter().map(|&x| f(x)).collect())
}

fn s<'a>(v: &'a Value, key: &str) -> &'a str {
    v[key].as_str().unwrap_or("")
}

fn floats(v: &Value) -> DimVec<f64> {
    v.as_array()
        .expect("array")
        .iter()
        .map(|x| match x {
            Value::String(t) if t == "inf" => std::f64::INFINITY,
            x => x.as_f64().expect("f64"),
        })
        .collect()
}

fn idxs(v: &Value) -> Vec<usize> {
    v.as_array()
        .expect("array")
        .iter()
        .map(|x| x.as_u64().expect("idx") as usize)
        .collect()
}

/// one value per edge
fn cycle(v: &Value, g: &Graph) -> Vec<usize> {
    let vals = idxs(v);
    (0..g.fwd_edges().count())
        .map(|i| vals[i % vals.len()])
        .collect()
}

fn routing_cfg(op: &Value) -> configs::routing::Config {
    let alphas = floats(&op["alphas"]);
    let tolerated_scales = if op["scales"].is_null() {
        alphas.iter().map(|_| std::f64::INFINITY).collect()
    } else {
        floats(&op["scales"])
    };
    let routing_algo = match s(op, "algo") {
        "CHDijkstra" => configs::routing::RoutingAlgo::CHDijkstra,
        _ => configs::routing::RoutingAlgo::Dijkstra,
    };
    configs::routing::Config {
        route_pairs_file: None,
        routing_algo,
        alphas,
        tolerated_scales,
    }
}

fn path_value(path: Path, graph: &Graph, with_flat: bool) -> Value {
    let mut p = path.clone();
    let costs = fs(p.calc_costs(graph));
    let edges: Vec<usize> = p.iter().map(|e| **e).collect();
    let mut v = json!({
        "src": *p.src_idx(), "dst": *p.dst_idx(), "edges": edges, "costs": costs,
    });
    if with_flat {
        // it doesn't matter whether the path's costs are known already or whether it is flat already
        let flattened = path.try_flatten(graph).and_then(|flat| {
            for again in [p.clone().try_flatten(graph)?, flat.clone().try_flatten(graph)?] {
                if again.iter().ne(flat.iter()) || again.costs() != flat.costs() {
                    return Ok(again);
                }
            }
            Ok(flat)
        });
        match flattened {
            Ok(flat) => {
                let edges: Vec<usize> = flat.iter().map(|e| **e).collect();
                v["flat"] = json!({
                    "src": *flat.src_idx(), "dst": *flat.dst_idx(),
                    "edges": edges, "costs": fs(flat.costs()),
                });
            }
            Err(msg) => v["flat"] = json!({ "err": format!("{}", msg) }),
        }
    }
    v
}

fn feedback(r: Result<(), osmgraphing::helpers::err::Msg>) -> Value {
    match r {
        Ok(()) => json!({"ok": true}),
        Err(msg) => json!({ "err": format!("{}", msg) }),
    }
}

pub fn dump(graph: &Graph) -> Value {
    let nodes = graph.nodes();
    let fwd = graph.fwd_edges();
    let bwd = graph.bwd_edges();
    let metrics = graph.metrics();
    let ns: Vec<Value> = nodes
        .iter()
        .map(|i| {
            let c = nodes.coord(i);
            json!({"id": nodes.id(i), "lat": f(c.lat), "lon": f(c.lon), "level": nodes.level(i)})
        })
        .collect();
    let es: Vec<Value> = fwd
        .iter()
        .map(|e| {
            json!({
                "src": *bwd.dst_idx(e), "dst": *fwd.dst_idx(e),
                "id": fwd.try_id(e),
                "sc": fwd.sc_edges(e).map(|sc| vec![*sc[0], *sc[1]]),
                "is_sc": fwd.is_shortcut(e),
                "m": fs(&metrics[e]),
            })
        })
        .collect();
    let adj = |acc: &osmgraphing::network::EdgeAccessor| -> Vec<Vec<Value>> {
        nodes
            .iter()
            .map(|i| {
                acc.starting_from(i)
                    .map(|he| json!([*he.idx(), *he.dst_idx(), fs(he.metrics())]))
                    .collect()
            })
            .collect()
    };
    let means: Vec<Value> = (0..metrics.dim())
        .map(|i| match metrics.mean(MetricIdx(i)) {
            Some(m) => f(m),
            None => Value::Null,
        })
        .collect();
    let ecfg = &graph.cfg().edges;
    json!({
        "nodes": ns, "edges": es,
        "node_count": nodes.count(), "fwd_count": fwd.count(), "bwd_count": bwd.count(),
        "out": adj(&fwd), "in": adj(&bwd),
        "dim": metrics.dim(), "means": means,
        "metric_ids": ecfg.metrics.ids.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
        "metric_units": ecfg.metrics.units.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
        "normalized": ecfg.metrics.are_normalized,
    })
}

/// stand-in for a full device: files can't grow beyond the given number of bytes
mod fsize {
    #[repr(C)]
    struct Rlimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
        fn getrlimit(resource: i32, rlim: *mut Rlimit) -> i32;
        fn signal(signum: i32, handler: usize) -> usize;
    }
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    pub fn limit(bytes: Option<u64>) {
        unsafe {
            signal(SIGXFSZ, SIG_IGN);
            let mut r = Rlimit { cur: 0, max: 0 };
            assert_eq!(getrlimit(RLIMIT_FSIZE, &mut r), 0, "HARNESS: getrlimit");
            r.cur = bytes.unwrap_or(r.max);
            assert_eq!(setrlimit(RLIMIT_FSIZE, &r), 0, "HARNESS: setrlimit");
        }
    }
}

impl World {
    pub fn new() -> World {
        World {
            graphs: HashMap::new(),
            routers: HashMap::new(),
            #[cfg(feature = "gpl")]
            explorators: HashMap::new(),
        }
    }

    fn graph(&self, op: &Value) -> &Graph {
        self.graphs.get(s(op, "g")).expect("HARNESS: no such graph")
    }

    pub fn exec(&mut self, op: &Value) -> Value {
        let limit = match op["limit"].as_array() {
            None => return self.exec_unlimited(op),
            // [file, delta]: size of the file plus delta
            Some(l) => {
                let len = std::fs::metadata(l[0].as_str().unwrap())
                    .map(|m| m.len())
                    .unwrap_or(0) as i64;
                std::cmp::max(0, len + l[1].as_i64().unwrap()) as u64
            }
        };
        fsize::limit(Some(limit));
        let result =
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec_unlimited(op)));
        fsize::limit(None);
        match result {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }

    fn exec_unlimited(&mut self, op: &Value) -> Value {
        // operations on graphs that could not be built are skipped
        let needs_graph = match s(op, "op") {
            "file" | "mkdir" | "rm" | "parse" | "read" | "ls" | "snap" | "rawcfg" | "route_pairs" | "cfg"
            | "ext" => false,
            _ => true,
        };
        if needs_graph && !self.graphs.contains_key(s(op, "g")) {
            return json!({"skipped": true});
        }
        match s(op, "op") {
            "file" => {
                let path = std::path::Path::new(s(op, "path"));
                if let Some(parent) = path.parent() {
                    let _ = std::fs::create_dir_all(parent);
                }
                if let Some(hex) = op["hex"].as_str() {
                    let bytes: Vec<u8> = (0..hex.len() / 2)
                        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex"))
                        .collect();
                    std::fs::write(path, bytes).expect("HARNESS: write");
                } else {
                    std::fs::write(path, s(op, "text")).expect("HARNESS: write");
                }
                json!({"ok": true})
            }
            "mkdir" => {
                let _ = std::fs::create_dir_all(s(op, "path"));
                json!({"ok": true})
            }
            "rm" => {
                let _ = std::fs::remove_file(s(op, "path"));
                json!({"ok": true})
            }
            "read" => match std::fs::read(s(op, "path")) {
                Ok(b) => json!({"text": String::from_utf8_lossy(&b)}),
                Err(_) => json!({"absent": true}),
            },
            "ls" => {
                let mut names = Vec::new();
                fn walk(dir: &std::path::Path, names: &mut Vec<String>) {
                    if let Ok(rd) = std::fs::read_dir(dir) {
                        for e in rd.flatten() {
                            let p = e.path();
                            if p.is_dir() {
                                walk(&p, names);
                            } else {
                                names.push(p.to_string_lossy().into_owned());
                            }
                        }
                    }
                }
                walk(std::path::Path::new("."), &mut names);
                names.sort();
                json!({ "files": names })
            }
            // what the scratch-directory contains
            "snap" => {
                fn walk(dir: &std::path::Path, out: &mut serde_json::Map<String, Value>) {
                    if let Ok(rd) = std::fs::read_dir(dir) {
                        for e in rd.flatten() {
                            let p = e.path();
                            let name = p.to_string_lossy().trim_start_matches("./").to_string();
                            if p.is_dir() {
                                out.insert(name + "/", json!("dir"));
                                walk(&p, out);
                            } else {
                                let b = std::fs::read(&p).unwrap_or_default();
                                out.insert(name, json!(String::from_utf8_lossy(&b)));
                            }
                        }
                    }
                }
                let mut out = serde_json::Map::new();
                walk(std::path::Path::new("."), &mut out);
                json!({ "snap": out })
            }
            "parse" => {
                self.graphs.remove(s(op, "g"));
                let cfg = match configs::parsing::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => cfg,
                    Err(msg) => return json!({"err": format!("{}", msg), "stage": "config"}),
                };
                match io::network::graph::Parser::parse_and_finalize(cfg) {
                    Ok(graph) => {
                        let v = if op["dump"] == json!(false) {
                            json!({"ok": true})
                        } else {
                            json!({"ok": true, "graph": dump(&graph)})
                        };
                        self.graphs.insert(s(op, "g").to_string(), graph);
                        v
                    }
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "parse"}),
                }
            }
            "dump" => json!({"ok": true, "graph": dump(self.graph(op))}),
            "lookup" => {
                let g = self.graph(op);
                let nodes: Vec<Value> = op["nodes"]
                    .as_array()
                    .map(|a| {
                        a.iter()
                            .map(|x| {
                                let id = x.as_i64().unwrap();
                                let byidx = g.nodes().idx_from(id).ok().map(|i| *i);
                                let created = g.nodes().create_from(id).map(|n| {
                                    json!({"id": n.id(), "idx": *n.idx(), "level": n.ch_level(),
                                           "lat": f(n.coord().lat), "lon": f(n.coord().lon)})
                                });
                                json!({"id": id, "idx": byidx, "node": created})
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                let edges: Vec<Value> = op["edges"]
                    .as_array()
                    .map(|a| {
                        a.iter()
                            .map(|x| {
                                let id = x.as_u64().unwrap() as usize;
                                json!({"id": id,
                                    "fwd": g.fwd_edges().try_idx_from(id).ok().map(|i| *i),
                                    "bwd": g.bwd_edges().try_idx_from(id).ok().map(|i| *i)})
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                json!({"nodes": nodes, "edges": edges})
            }
            "between" => {
                let g = self.graph(op);
                let mut res = Vec::new();
                for a in g.nodes().iter() {
                    for b in g.nodes().iter() {
                        res.push(json!([
                            *a,
                            *b,
                            g.fwd_edges().between(a, b).map(|h| *h.idx()),
                            g.bwd_edges().between(a, b).map(|h| *h.idx())
                        ]));
                    }
                }
                json!({ "between": res })
            }
            "route" => {
                let cfg = routing_cfg(op);
                let g = self.graphs.get(s(op, "g")).unwrap();
                let router = self
                    .routers
                    .entry(s(op, "r").to_string())
                    .or_insert_with(Dijkstra::new);
                let queries = op["queries"].as_array().expect("queries");
                // The queries may be repeated, where answers (of a query) agreeing with an earlier one are left out.
                let rounds = op.get("rounds").and_then(Value::as_u64).unwrap_or(1);
                let mut res = Vec::new();
                let mut asked = Vec::new();
                let mut seen: Vec<Vec<Value>> = vec![vec![]; queries.len()];
                for _ in 0..rounds {
                    for (i, q) in queries.iter().enumerate() {
                        let q = idxs(q);
                        let path = router.compute_best_path(dijkstra::Query {
                            src_idx: NodeIdx(q[0]),
                            dst_idx: NodeIdx(q[1]),
                            graph: g,
                            routing_cfg: &cfg,
                        });
                        if rounds > 1 {
                            let short = match &path {
                                Some(p) => json!(p.into_iter().map(|e| **e).collect::<Vec<_>>()),
                                None => Value::Null,
                            };
                            if seen[i].contains(&short) {
                                continue;
                            }
                            seen[i].push(short);
                        }
                        asked.push(json!(i));
                        res.push(match path {
                            Some(p) => path_value(p, g, true),
                            None => Value::Null,
                        });
                    }
                }
                json!({ "paths": res, "asked": asked })
            }
            #[cfg(feature = "gpl")]
            "explore" => {
                let cfg = routing_cfg(op);
                let g = self.graphs.get(s(op, "g")).unwrap();
                let router = self
                    .routers
                    .entry(s(op, "r").to_string())
                    .or_insert_with(Dijkstra::new);
                let explorator = self
                    .explorators
                    .entry(s(op, "r").to_string())
                    .or_insert_with(ConvexHullExplorator::new);
                let mut res = Vec::new();
                for q in op["queries"].as_array().expect("queries") {
                    let q = idxs(q);
                    let paths = explorator.fully_explorate(
                        dijkstra::Query {
                            src_idx: NodeIdx(q[0]),
                            dst_idx: NodeIdx(q[1]),
                            graph: g,
                            routing_cfg: &cfg,
                        },
                        router,
                    );
                    res.push(Value::Array(
                        paths
                            .into_iter()
                            .map(|p| {
                                let costs = fs(p.costs());
                                let mut v = path_value(p, g, true);
                                v["own_costs"] = costs;
                                v
                            })
                            .collect(),
                    ));
                }
                json!({ "found": res })
            }
            "flatten" => {
                let g = self.graph(op);
                let mut res = Vec::new();
                for p in op["paths"].as_array().expect("paths") {
                    let src = NodeIdx(p["src"].as_u64().unwrap() as usize);
                    let dst = NodeIdx(p["dst"].as_u64().unwrap() as usize);
                    let path = Path::new(
                        src,
                        g.nodes().id(src),
                        dst,
                        g.nodes().id(dst),
                        idxs(&p["edges"]).into_iter().map(EdgeIdx).collect(),
                    );
                    res.push(path_value(path, g, true));
                }
                json!({ "paths": res })
            }
            // every edge as a path of its own, and chains of two and three edges
            "flatall" => {
                let g = self.graph(op);
                let (fwd, bwd) = (g.fwd_edges(), g.bwd_edges());
                let mut res = Vec::new();
                for e in fwd.iter() {
                    let src = bwd.dst_idx(e);
                    let mut edges = vec![e];
                    let mut dst = fwd.dst_idx(e);
                    loop {
                        let path =
                            Path::new(src, g.nodes().id(src), dst, g.nodes().id(dst), edges.clone());
                        res.push(path_value(path, g, true));
                        let next = fwd.starting_from(dst).last().map(|h| (h.idx(), h.dst_idx()));
                        match next {
                            Some((idx, d)) if edges.len() < 3 => {
                                edges.push(idx);
                                dst = d;
                            }
                            _ => break,
                        }
                    }
                }
                json!({ "paths": res })
            }
            "routecfg" => {
                let g = self.graph(op);
                match configs::routing::Config::try_from_yaml(s(op, "cfg"), g.cfg()) {
                    Ok(cfg) => json!({
                        "ok": true, "alphas": fs(&cfg.alphas), "scales": fs(&cfg.tolerated_scales),
                        "algo": format!("{:?}", cfg.routing_algo),
                        "file": cfg.route_pairs_file.map(|p| p.to_string_lossy().into_owned()),
                    }),
                    Err(msg) => json!({ "err": format!("{}", msg) }),
                }
            }
            // routing exactly as configured by a yaml-file
            "route_by_cfg" => {
                let g = self.graphs.get(s(op, "g")).unwrap();
                let cfg = match configs::routing::Config::try_from_yaml(s(op, "cfg"), g.cfg()) {
                    Ok(cfg) => cfg,
                    Err(msg) => return json!({ "err": format!("{}", msg) }),
                };
                let mut router = Dijkstra::new();
                let mut res = Vec::new();
                for q in op["queries"].as_array().expect("queries") {
                    let q = idxs(q);
                    let path = router.compute_best_path(dijkstra::Query {
                        src_idx: NodeIdx(q[0]),
                        dst_idx: NodeIdx(q[1]),
                        graph: g,
                        routing_cfg: &cfg,
                    });
                    res.push(match path {
                        Some(p) => path_value(p, g, true),
                        None => Value::Null,
                    });
                }
                json!({ "paths": res })
            }
            "wgraph" => {
                let g = self.graph(op);
                match configs::writing::network::graph::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => feedback(io::network::graph::Writer::write(g, &cfg)),
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "config"}),
                }
            }
            "wedges" => {
                let g = self.graph(op);
                match configs::writing::network::edges::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => feedback(io::network::edges::Writer::write(g, &cfg)),
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "config"}),
                }
            }
            "wroutes" => {
                let g = self.graph(op);
                let rcfg = match configs::routing::Config::try_from_yaml(s(op, "cfg"), g.cfg()) {
                    Ok(cfg) => cfg,
                    Err(msg) => return json!({"err": format!("{}", msg), "stage": "config"}),
                };
                match configs::writing::routing::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => feedback(io::routing::Writer::write(g, &rcfg, &cfg)),
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "config"}),
                }
            }
            "proutes" => {
                let g = self.graph(op);
                let rcfg = match configs::routing::Config::try_from_yaml(s(op, "cfg"), g.cfg()) {
                    Ok(cfg) => cfg,
                    Err(msg) => return json!({"err": format!("{}", msg), "stage": "config"}),
                };
                match io::routing::Parser::parse(&rcfg) {
                    Ok(pairs) => json!({
                        "ok": true,
                        "pairs": pairs.iter().map(|(p, c)| json!([p.src, p.dst, c])).collect::<Vec<_>>(),
                    }),
                    Err(msg) => json!({ "err": format!("{}", msg) }),
                }
            }
            #[cfg(feature = "gpl")]
            "wsmarts" => {
                // walks: [start, choice, choice, ...], choices among the leaving edges
                let g = self.graph(op);
                let (nodes, fwd) = (g.nodes(), g.fwd_edges());
                let mut paths = Vec::new();
                for w in op["walks"].as_array().expect("walks") {
                    let w = idxs(w);
                    let src = NodeIdx(w[0] % nodes.count());
                    let mut dst = src;
                    let mut edges = Vec::new();
                    for k in &w[1..] {
                        let leaving: Vec<_> = fwd
                            .starting_from(dst)
                            .map(|h| (h.idx(), h.dst_idx()))
                            .collect();
                        if leaving.is_empty() {
                            break;
                        }
                        let (e, d) = leaving[k % leaving.len()];
                        edges.push(e);
                        dst = d;
                    }
                    paths.push(Path::new(src, nodes.id(src), dst, nodes.id(dst), edges));
                }
                let mut v = feedback(io::smarts::Writer::write(
                    &paths,
                    g,
                    &configs::writing::smarts::Config {
                        file: s(op, "file").into(),
                    },
                ));
                v["paths"] = paths
                    .iter()
                    .map(|p| {
                        let edges: Vec<usize> = p.iter().map(|e| **e).collect();
                        json!({"src": *p.src_idx(), "dst": *p.dst_idx(), "edges": edges})
                    })
                    .collect();
                v
            }
            #[cfg(feature = "gpl")]
            "weval" => {
                let g = self.graph(op);
                let values = cycle(&op["values"], g);
                match configs::evaluating_balance::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => {
                        if op["check"] == json!(true) {
                            feedback(io::evaluating_balance::Writer::check(&cfg))
                        } else {
                            feedback(io::evaluating_balance::Writer::write(&values, g, &cfg))
                        }
                    }
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "config"}),
                }
            }
            "wext" => {
                let g = self.graph(op);
                let values = cycle(&op["values"], g);
                match configs::writing::network::edges::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => feedback(io::network::edges::Writer::write_external_values(
                        &values, g, &cfg,
                    )),
                    Err(msg) => json!({"err": format!("{}", msg), "stage": "config"}),
                }
            }
            #[cfg(feature = "gpl")]
            "update_metric" => {
                let cfg = match configs::balancing::Config::try_from_yaml(s(op, "cfg")) {
                    Ok(cfg) => cfg,
                    Err(msg) => return json!({"err": format!("{}", msg), "stage": "config"}),
                };
                let g = self.graphs.get_mut(s(op, "g")).unwrap();
                let workloads = idxs(&op["workloads"]);
                let iter = op["iter"].as_u64().unwrap() as usize;
                feedback(osmgraphing::defaults::balancing::update_new_metric(
                    iter, &workloads, g, &cfg,
                ))
            }
            // is this a configuration?
            "cfg" => {
                fn answer<T>(r: osmgraphing::helpers::err::Result<T>) -> Value {
                    match r {
                        Ok(_) => json!({"ok": true}),
                        Err(msg) => json!({ "err": format!("{}", msg) }),
                    }
                }
                let p = s(op, "cfg");
                match s(op, "sec") {
                    "parsing" => answer(configs::parsing::Config::try_from_yaml(p)),
                    "routing" => match configs::parsing::Config::try_from_yaml(p) {
                        Ok(parsing) => answer(configs::routing::Config::try_from_yaml(p, &parsing)),
                        Err(msg) => panic!("HARNESS: {}", msg),
                    },
                    "wgraph" => answer(configs::writing::network::graph::Config::try_from_yaml(p)),
                    "wedges" => answer(configs::writing::network::edges::Config::try_from_yaml(p)),
                    "wroutes" => answer(configs::writing::routing::Config::try_from_yaml(p)),
                    #[cfg(feature = "gpl")]
                    "balancing" => answer(configs::balancing::Config::try_from_yaml(p)),
                    #[cfg(feature = "gpl")]
                    "evaluating" => answer(configs::evaluating_balance::Config::try_from_yaml(p)),
                    other => panic!("HARNESS: unknown section {}", other),
                }
            }
            #[cfg(feature = "gpl")]
            "balcfg" => match configs::balancing::Config::try_from_yaml(s(op, "cfg")) {
                Ok(cfg) => json!({"ok": true, "seed": cfg.seed, "num_iter": cfg.num_iter,
                    "num_threads": cfg.num_threads, "min": cfg.min_new_metric}),
                Err(msg) => json!({ "err": format!("{}", msg) }),
            },
            other => panic!("HARNESS: unknown op {}", other),
        }
    }
}
