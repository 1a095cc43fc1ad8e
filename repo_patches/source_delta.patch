From b4901bc80a2f5389e9e971b356c39ba8ff5b4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 01/72] fix: requests for a tag or without a range are
 satisfied by the package they resolve to

---
 crates/node-maintainer/src/resolver.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..1098d99 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -127,7 +127,8 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep)? {
+                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep, None)?
+                    {
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[_child_idx].package, dep.start.elapsed());
                         }
@@ -220,7 +221,7 @@ impl<'a> Resolver<'a> {
 
                         for dep in deps {
                             if let Some(_child_idx) =
-                                Self::satisfy_dependency(&mut self.graph, &dep)?
+                                Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
                             {
                                 if let Some(handler) = &self.on_resolve_progress {
                                     handler(&self.graph[_child_idx].package, dep.start.elapsed());
@@ -278,13 +279,13 @@ impl<'a> Resolver<'a> {
     fn satisfy_dependency(
         graph: &mut Graph,
         dep: &NodeDependency,
+        fetched: Option<&Package>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
-            if graph[satisfier_idx]
-                .package
-                .resolved()
-                .satisfies(&dep.spec)?
-            {
+            let found = graph[satisfier_idx].package.resolved();
+            // Tags and the like can't be compared to a version, but they are
+            // satisfied by the very package they've just been resolved to.
+            if found.satisfies(&dep.spec)? || fetched.map(|pkg| pkg.resolved()) == Some(found) {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
                     satisfier_idx,
-- 
2.43.0


From 34df5002945164b19e52e321c6b5a3437cbf5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 02/72] fix: an alias is only satisfied by the package it
 stands for

---
 crates/nassun/src/resolver.rs          | 31 ++++++++++++++------
 crates/node-maintainer/src/graph.rs    |  5 +++-
 crates/node-maintainer/src/lockfile.rs | 40 ++++++++++++++++++--------
 3 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..f722fcb 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -66,14 +66,24 @@ impl PackageResolution {
         use PackageResolution as PR;
         use PackageSpec as PS;
         Ok(match (self, spec.target()) {
-            (PR::Npm { version, .. }, PS::Npm { requested, .. }) => {
-                match requested {
-                    Some(VersionSpec::Version(v)) => version == v,
-                    Some(VersionSpec::Range(r)) => r.satisfies(version),
-                    // It's expected that `spec` has previously been resolved at least down to a range.
-                    Some(VersionSpec::Tag(_)) => false,
-                    None => false,
-                }
+            (
+                PR::Npm { name, version, .. },
+                PS::Npm {
+                    name: wanted,
+                    requested,
+                    ..
+                },
+            ) => {
+                // The name something is installed under may be an alias, so
+                // make sure it's actually the package that was asked for.
+                name == wanted
+                    && match requested {
+                        Some(VersionSpec::Version(v)) => version == v,
+                        Some(VersionSpec::Range(r)) => r.satisfies(version),
+                        // It's expected that `spec` has previously been resolved at least down to a range.
+                        Some(VersionSpec::Tag(_)) => false,
+                        None => false,
+                    }
             }
             (PR::Dir { path: pr_path, .. }, PS::Dir { path: ps_path }) => {
                 pr_path
@@ -245,7 +255,10 @@ impl PackageResolver {
             })
             .and_then(|v| {
                 Ok(PackageResolution::Npm {
-                    name: name.into(),
+                    name: match spec {
+                        Npm { name, .. } => name.clone(),
+                        _ => name.into(),
+                    },
                     version: v
                         .manifest
                         .version
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 921fdd5..ac31590 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -400,7 +400,10 @@ impl Graph {
             deps.insert(name.to_string(), requested.requested().clone());
         }
         Ok(LockfileNode {
-            name: UniCase::new(node.package.name().to_string()),
+            name: UniCase::new(match node.package.resolved() {
+                PackageResolution::Npm { name, .. } => name.clone(),
+                _ => node.package.name().to_string(),
+            }),
             is_root,
             path: path.into(),
             resolved: Some(resolved),
diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 191b1a6..5f7ea4c 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -161,12 +161,20 @@ impl LockfileNode {
         &self,
         nassun: &Nassun,
     ) -> Result<Option<Package>, NodeMaintainerError> {
+        // The name this package gets installed under, which differs from the
+        // package's own name if it was requested through an alias.
+        let name = self.path.last().unwrap_or(&self.name).to_string();
+        let npm = if self.name.as_str() == name {
+            name.clone()
+        } else {
+            format!("{name}@npm:{}", self.name)
+        };
         let spec = match (self.resolved.as_ref(), self.version.as_ref()) {
             (Some(resolved), Some(version)) if resolved.starts_with("http") => {
-                format!("{}@{version}", self.name)
+                format!("{npm}@{version}")
             }
-            (Some(resolved), _) => format!("{}@{resolved}", self.name),
-            (_, Some(version)) => format!("{}@{version}", self.name),
+            (Some(resolved), _) => format!("{name}@{resolved}"),
+            (_, Some(version)) => format!("{npm}@{version}"),
             _ => {
                 // Nothing we can do here, we don't have enough information to resolve the package.
                 return Ok(None);
@@ -176,12 +184,12 @@ impl LockfileNode {
         let package = match &spec.target() {
             PackageSpec::Dir { path } => {
                 let resolution = PackageResolution::Dir {
-                    name: self.name.to_string(),
+                    name: name.clone(),
                     path: path.clone(),
                 };
-                nassun.resolve_from(self.name.to_string(), spec, resolution)
+                nassun.resolve_from(name, spec, resolution)
             }
-            PackageSpec::Npm { name, .. } => {
+            PackageSpec::Npm { name: target, .. } => {
                 let version = if let Some(ref version) = self.version {
                     version
                 } else {
@@ -189,14 +197,14 @@ impl LockfileNode {
                 };
                 if let Some(ref url) = self.resolved {
                     let resolution = PackageResolution::Npm {
-                        name: name.clone(),
+                        name: target.clone(),
                         version: version.clone(),
                         tarball: url
                             .parse()
                             .map_err(|e| NodeMaintainerError::UrlParseError(url.clone(), e))?,
                         integrity: self.integrity.clone(),
                     };
-                    nassun.resolve_from(self.name.to_string(), spec, resolution)
+                    nassun.resolve_from(name, spec, resolution)
                 } else {
                     nassun.resolve(spec.to_string()).await?
                 }
@@ -204,10 +212,10 @@ impl LockfileNode {
             PackageSpec::Git(info) => {
                 if info.committish().is_some() {
                     let resolution = PackageResolution::Git {
-                        name: self.name.to_string(),
+                        name: name.clone(),
                         info: info.clone(),
                     };
-                    nassun.resolve_from(self.name.to_string(), spec, resolution)
+                    nassun.resolve_from(name, spec, resolution)
                 } else {
                     nassun.resolve(spec.to_string()).await?
                 }
@@ -237,8 +245,11 @@ impl LockfileNode {
         let name = if is_root {
             UniCase::new("".into())
         } else {
-            path.last()
-                .cloned()
+            children
+                .get_arg("name")
+                .and_then(|name| name.as_string())
+                .map(|name| UniCase::new(name.to_string()))
+                .or_else(|| path.last().cloned())
                 // TODO: add a miette span here
                 .ok_or_else(|| NodeMaintainerError::KdlLockMissingName(node.clone()))?
         };
@@ -308,6 +319,11 @@ impl LockfileNode {
         for name in &self.path {
             kdl_node.push(name.as_ref());
         }
+        if !self.is_root && self.path.last().map(|n| n.as_str()) != Some(self.name.as_str()) {
+            let mut nnode = KdlNode::new("name");
+            nnode.push(self.name.as_ref());
+            kdl_node.ensure_children().nodes_mut().push(nnode);
+        }
         if let Some(ref version) = self.version {
             let mut vnode = KdlNode::new("version");
             vnode.push(version.to_string());
-- 
2.43.0


From 74ba625ff4b99de4219d3df4725df1abf5e9c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 03/72] fix: the resolved tree does not depend on the order of
 registry responses

---
 crates/node-maintainer/src/resolver.rs | 96 +++++++++++++-------------
 1 file changed, 47 insertions(+), 49 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 1098d99..cc5ce32 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -99,8 +99,10 @@ impl<'a> Resolver<'a> {
                     .resolve_spec(spec.clone())
                     .map_ok(move |p| (p, spec))
             })
-            .buffer_unordered(self.concurrency)
-            .ready_chunks(self.concurrency);
+            // Results are taken one by one, in the order they were requested
+            // in, so the resulting tree does not depend on the order in which
+            // responses happen to arrive.
+            .buffered(self.concurrency);
 
         // Start iterating over the queue. We'll be adding things to it as we find them.
         while !q.is_empty() || in_flight != 0 {
@@ -187,61 +189,57 @@ impl<'a> Resolver<'a> {
                 continue;
             }
 
-            // Order doesn't matter here: each node name is unique, so we
-            // don't have to worry about races messing with placement.
-            if let Some(packages) = package_stream.next().await {
-                for res in packages {
-                    let (package, spec) = res?;
-                    let deps = fetches.lock().await.remove(&spec);
+            if let Some(res) = package_stream.next().await {
+                let (package, spec) = res?;
+                let deps = fetches.lock().await.remove(&spec);
 
-                    if let Some(deps) = deps {
-                        in_flight -= deps.len();
-
-                        let CorgiVersionMetadata {
-                            manifest,
-                            #[cfg(not(target_arch = "wasm32"))]
-                            deprecated,
-                            ..
-                        } = &package.corgi_metadata().await?;
+                if let Some(deps) = deps {
+                    in_flight -= deps.len();
 
+                    let CorgiVersionMetadata {
+                        manifest,
                         #[cfg(not(target_arch = "wasm32"))]
-                        if let Some(deprecated) = deprecated {
-                            tracing::warn!(
-                                "{} {}@{}: {}",
-                                "deprecated".on_magenta(),
-                                manifest.name.as_ref().unwrap(),
-                                manifest
-                                    .version
-                                    .as_ref()
-                                    .map(|v| v.to_string())
-                                    .unwrap_or_else(|| "unknown".into()),
-                                deprecated
-                            );
-                        }
+                        deprecated,
+                        ..
+                    } = &package.corgi_metadata().await?;
+
+                    #[cfg(not(target_arch = "wasm32"))]
+                    if let Some(deprecated) = deprecated {
+                        tracing::warn!(
+                            "{} {}@{}: {}",
+                            "deprecated".on_magenta(),
+                            manifest.name.as_ref().unwrap(),
+                            manifest
+                                .version
+                                .as_ref()
+                                .map(|v| v.to_string())
+                                .unwrap_or_else(|| "unknown".into()),
+                            deprecated
+                        );
+                    }
 
-                        for dep in deps {
-                            if let Some(_child_idx) =
-                                Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
-                            {
-                                if let Some(handler) = &self.on_resolve_progress {
-                                    handler(&self.graph[_child_idx].package, dep.start.elapsed());
-                                }
-                                continue;
+                    for dep in deps {
+                        if let Some(_child_idx) =
+                            Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
+                        {
+                            if let Some(handler) = &self.on_resolve_progress {
+                                handler(&self.graph[_child_idx].package, dep.start.elapsed());
                             }
+                            continue;
+                        }
 
-                            let child_idx = Self::place_child(
-                                &mut self.graph,
-                                &dep,
-                                package.clone(),
-                                manifest.clone(),
-                                None,
-                            )?;
+                        let child_idx = Self::place_child(
+                            &mut self.graph,
+                            &dep,
+                            package.clone(),
+                            manifest.clone(),
+                            None,
+                        )?;
 
-                            q.push_back(child_idx);
+                        q.push_back(child_idx);
 
-                            if let Some(handler) = &self.on_resolve_progress {
-                                handler(&self.graph[child_idx].package, dep.start.elapsed());
-                            }
+                        if let Some(handler) = &self.on_resolve_progress {
+                            handler(&self.graph[child_idx].package, dep.start.elapsed());
                         }
                     }
                 }
-- 
2.43.0


From e4ab8b6b988f982f7712ada673c27ebecd51786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 04/72] fix: a package placed above others does not shadow what
 they depend on

---
 crates/node-maintainer/src/resolver.rs | 69 ++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 11 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index cc5ce32..a40ce04 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -12,7 +12,7 @@ use indexmap::IndexMap;
 use nassun::client::Nassun;
 use nassun::package::Package;
 use nassun::PackageSpec;
-use oro_common::{CorgiManifest, CorgiVersionMetadata};
+use oro_common::CorgiVersionMetadata;
 use petgraph::stable_graph::NodeIndex;
 use petgraph::visit::EdgeRef;
 use petgraph::Direction;
@@ -163,11 +163,10 @@ impl<'a> Resolver<'a> {
                                 let child_idx = Self::place_child(
                                     &mut self.graph,
                                     &dep,
-                                    package,
-                                    lockfile_node.into(),
+                                    Node::new(name.clone(), package, lockfile_node.into(), false)?,
                                     Some(target_path),
+                                    &mut q,
                                 )?;
-                                q.push_back(child_idx);
 
                                 if let Some(handler) = &self.on_resolve_progress {
                                     handler(&self.graph[child_idx].package, dep.start.elapsed());
@@ -231,13 +230,11 @@ impl<'a> Resolver<'a> {
                         let child_idx = Self::place_child(
                             &mut self.graph,
                             &dep,
-                            package.clone(),
-                            manifest.clone(),
+                            Node::new(dep.name.clone(), package.clone(), manifest.clone(), false)?,
                             None,
+                            &mut q,
                         )?;
 
-                        q.push_back(child_idx);
-
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[child_idx].package, dep.start.elapsed());
                         }
@@ -345,15 +342,14 @@ impl<'a> Resolver<'a> {
     fn place_child(
         graph: &mut Graph,
         dep: &NodeDependency,
-        package: Package,
-        corgi: CorgiManifest,
+        child_node: Node,
         target_path: Option<Vec<UniCase<String>>>,
+        q: &mut VecDeque<NodeIndex>,
     ) -> Result<NodeIndex, NodeMaintainerError> {
         let child_name = &dep.name;
         let requested = &dep.spec;
         let dep_type = dep.dep_type;
         let dependent_idx = dep.node_idx;
-        let child_node = Node::new(child_name.clone(), package, corgi, false)?;
         let child_idx = graph.inner.add_node(child_node);
         graph[child_idx].root = graph.root;
         // We needed to generate the node index before setting it in the node,
@@ -435,9 +431,60 @@ impl<'a> Resolver<'a> {
                 );
             }
         }
+        q.push_back(child_idx);
+        Self::replace_shadowed(graph, target_idx, child_name, q)?;
         Ok(child_idx)
     }
 
+    /// Anything underneath `parent` that's been using a `name` from further up
+    /// the hierarchy finds `parent`'s own `name` from now on. If that's not
+    /// what it needs, it gets its own copy of what it's been using so far.
+    fn replace_shadowed(
+        graph: &mut Graph,
+        parent: NodeIndex,
+        name: &UniCase<String>,
+        q: &mut VecDeque<NodeIndex>,
+    ) -> Result<(), NodeMaintainerError> {
+        let Some(shadowed) = graph[parent]
+            .parent
+            .and_then(|idx| graph.resolve_dep(idx, name))
+        else {
+            return Ok(());
+        };
+        let edges = graph
+            .inner
+            .edges_directed(shadowed, Direction::Incoming)
+            .filter(|edge| graph.is_ancestor(parent, edge.source()))
+            .map(|edge| (edge.id(), edge.source()))
+            .collect::<Vec<_>>();
+        for (edge_idx, node_idx) in edges {
+            if let Some(Edge {
+                requested,
+                dep_type,
+            }) = graph.inner.remove_edge(edge_idx)
+            {
+                let dep = NodeDependency {
+                    name: name.clone(),
+                    spec: requested,
+                    dep_type,
+                    node_idx,
+                    start: Instant::now(),
+                };
+                let package = graph[shadowed].package.clone();
+                if Self::satisfy_dependency(graph, &dep, Some(&package))?.is_none() {
+                    let copy = Node {
+                        dependencies: IndexMap::new(),
+                        children: IndexMap::new(),
+                        parent: None,
+                        ..graph[shadowed].clone()
+                    };
+                    Self::place_child(graph, &dep, copy, None, q)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     #[cfg(not(target_arch = "wasm32"))]
     async fn load_actual(&mut self) -> Result<(), NodeMaintainerError> {
         let meta = self.root.join("node_modules").join(META_FILE_NAME);
-- 
2.43.0


From cdc8d5dc3849a3e3a4ff781b5eb256f88ad27482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 05/72] fix: locked mode accepts a lockfile that describes the
 resolved tree

---
 crates/node-maintainer/src/lockfile.rs | 36 ++++++++++++++++++++++++++
 crates/node-maintainer/src/resolver.rs |  2 +-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 5f7ea4c..365de74 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeMap;
+
 use indexmap::IndexMap;
 use kdl::{KdlDocument, KdlNode};
 use nassun::{client::Nassun, package::Package, PackageResolution};
@@ -31,6 +33,40 @@ impl Lockfile {
         &self.packages
     }
 
+    /// Whether this lockfile describes the same tree as `other`, starting from
+    /// the same requests. It doesn't matter how either of them was written.
+    pub(crate) fn same_tree(&self, other: &Self) -> bool {
+        fn requests(deps: &IndexMap<String, String>) -> BTreeMap<&str, String> {
+            deps.iter()
+                .map(|(name, spec)| {
+                    let parsed = format!("{name}@{spec}").parse::<PackageSpec>();
+                    let spec = parsed.map_or_else(|_| spec.clone(), |spec| spec.requested());
+                    (name.as_str(), spec)
+                })
+                .collect()
+        }
+        fn packages(lock: &Lockfile) -> BTreeMap<&UniCase<String>, &LockfileNode> {
+            let packages = lock.packages.iter();
+            packages.filter(|(_, pkg)| !pkg.is_root).collect()
+        }
+        let (root, other_root) = (&self.root, &other.root);
+        let (pkgs, other_pkgs) = (packages(self), packages(other));
+        requests(&root.dependencies) == requests(&other_root.dependencies)
+            && requests(&root.dev_dependencies) == requests(&other_root.dev_dependencies)
+            && requests(&root.optional_dependencies) == requests(&other_root.optional_dependencies)
+            && pkgs.len() == other_pkgs.len()
+            && pkgs
+                .iter()
+                .zip(other_pkgs)
+                .all(|((path, pkg), (other_path, other_pkg))| {
+                    *path == other_path
+                        && pkg.name == other_pkg.name
+                        && pkg.version == other_pkg.version
+                        && pkg.resolved == other_pkg.resolved
+                        && pkg.integrity == other_pkg.integrity
+                })
+    }
+
     pub fn to_kdl(&self) -> KdlDocument {
         let mut doc = KdlDocument::new();
         doc.set_leading(
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index a40ce04..8653e60 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -256,7 +256,7 @@ impl<'a> Resolver<'a> {
 
         if self.locked {
             if let Some(lockfile) = lockfile {
-                if lockfile != self.graph.to_lockfile()? {
+                if !lockfile.same_tree(&self.graph.to_lockfile()?) {
                     return Err(NodeMaintainerError::LockfileMismatch);
                 }
             }
-- 
2.43.0


From 43b8eb2f3708f5ff7d03ca7b34e0e79e87bcb8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 06/72] fix: requests for a tag keep what the lockfile resolved
 them to

A lockfile entry was only used when its version could be compared to the
request, so a request for a tag or without a range was always resolved
anew, and could not be hoisted next to itself.
---
 crates/node-maintainer/src/lockfile.rs | 25 ++++++++++++++++++-
 crates/node-maintainer/src/resolver.rs | 34 +++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 365de74..97918ea 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, VecDeque};
 
 use indexmap::IndexMap;
 use kdl::{KdlDocument, KdlNode};
@@ -33,6 +33,29 @@ impl Lockfile {
         &self.packages
     }
 
+    /// What the package at `path` (or the root, if that's empty) requests under
+    /// the name `name`, according to this lockfile.
+    pub(crate) fn request(
+        &self,
+        path: &VecDeque<UniCase<String>>,
+        name: &UniCase<String>,
+    ) -> Option<&String> {
+        let node = if path.is_empty() {
+            &self.root
+        } else {
+            let path = path.iter().map(|x| x.to_string()).collect::<Vec<_>>();
+            self.packages
+                .get(&UniCase::from(path.join("/node_modules/")))?
+        };
+        [
+            &node.dependencies,
+            &node.dev_dependencies,
+            &node.optional_dependencies,
+        ]
+        .into_iter()
+        .find_map(|deps| deps.get(name.as_str()))
+    }
+
     /// Whether this lockfile describes the same tree as `other`, starting from
     /// the same requests. It doesn't matter how either of them was written.
     pub(crate) fn same_tree(&self, other: &Self) -> bool {
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 8653e60..c7ab134 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -11,7 +11,7 @@ use futures::{StreamExt, TryFutureExt};
 use indexmap::IndexMap;
 use nassun::client::Nassun;
 use nassun::package::Package;
-use nassun::PackageSpec;
+use nassun::{PackageSpec, VersionSpec};
 use oro_common::CorgiVersionMetadata;
 use petgraph::stable_graph::NodeIndex;
 use petgraph::visit::EdgeRef;
@@ -158,6 +158,18 @@ impl<'a> Resolver<'a> {
                                 )
                                 .await?
                             {
+                                if let Some(child_idx) =
+                                    Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
+                                {
+                                    if let Some(handler) = &self.on_resolve_progress {
+                                        handler(
+                                            &self.graph[child_idx].package,
+                                            dep.start.elapsed(),
+                                        );
+                                    }
+                                    continue;
+                                }
+
                                 let target_path = lockfile_node.path.clone();
 
                                 let child_idx = Self::place_child(
@@ -305,6 +317,16 @@ impl<'a> Resolver<'a> {
         requested: &PackageSpec,
     ) -> Result<Option<(Package, LockfileNode)>, NodeMaintainerError> {
         let mut path = graph.node_path(dependent_idx);
+        // Tags and the like can't be compared to a version, so they're
+        // satisfied by what they were locked to, as long as it's still the
+        // same thing that's being requested.
+        let pinned = match requested.target() {
+            PackageSpec::Npm {
+                requested: None | Some(VersionSpec::Tag(_)),
+                ..
+            } => lockfile.request(&path, name) == Some(&requested.requested()),
+            _ => false,
+        };
         let mut last_loop = false;
         loop {
             if path.is_empty() {
@@ -320,7 +342,13 @@ impl<'a> Resolver<'a> {
             path.pop_back();
             if let Some(lockfile_node) = lockfile.packages().get(&path_str) {
                 if let Some(package) = lockfile_node.to_package(&self.nassun).await? {
-                    if package.resolved().satisfies(requested)? {
+                    let same_package = match (package.from().target(), requested.target()) {
+                        (PackageSpec::Npm { name, .. }, PackageSpec::Npm { name: wanted, .. }) => {
+                            name == wanted
+                        }
+                        _ => false,
+                    };
+                    if package.resolved().satisfies(requested)? || (pinned && same_package) {
                         return Ok(Some((package, lockfile_node.clone())));
                     } else {
                         // TODO: Log this We found a lockfile node in a place
@@ -386,7 +414,7 @@ impl<'a> Resolver<'a> {
             }
 
             if let Some((req, _)) = graph[curr_target_idx].dependency_reqs.get(child_name) {
-                if !graph[child_idx].package.resolved().satisfies(req)? {
+                if req != requested && !graph[child_idx].package.resolved().satisfies(req)? {
                     break 'outer;
                 }
             }
-- 
2.43.0


From 9717cb6e33fdb94511c589f6cbb15ae8fc360aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 07/72] fix: dependencies on directories can be resolved under
 a name

The name in front of a directory makes the specifier an alias, which the
fetcher did not look through, and panicked.
---
 crates/nassun/src/fetch/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 3c2e48b..9ed217a 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -125,7 +125,7 @@ impl PackageFetcher for DirFetcher {
     }
 
     async fn packument(&self, spec: &PackageSpec, base_dir: &Path) -> Result<Arc<Packument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -137,7 +137,7 @@ impl PackageFetcher for DirFetcher {
         spec: &PackageSpec,
         base_dir: &Path,
     ) -> Result<Arc<CorgiPackument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
-- 
2.43.0


From 6e46491ff021246b65a0194cd869a7814de4985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 08/72] fix: hosted git dependencies without a committish are
 cloned instead of panicking

---
 crates/nassun/src/fetch/git.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c63c939..c6ea71a 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -62,22 +62,20 @@ impl GitFetcher {
                     if let Some(requested) = requested {
                         self.fetch_clone(dir, requested, committish, semver, info)
                             .await?;
-                    } else if let (Some(tarball), Some(https), Some(ssh)) =
-                        (hosted.tarball(), hosted.https(), hosted.ssh())
-                    {
-                        match self.fetch_tarball(dir, &tarball).await {
+                    } else if let (Some(https), Some(ssh)) = (hosted.https(), hosted.ssh()) {
+                        // Hosts only have tarballs of specific commits.
+                        if let Some(tarball) = hosted.tarball() {
+                            if self.fetch_tarball(dir, &tarball).await.is_ok() {
+                                return Ok(());
+                            }
+                        }
+                        match self
+                            .fetch_clone(dir, https.to_string(), committish, semver, info)
+                            .await
+                        {
                             Ok(_) => {}
                             Err(_) => {
-                                match self
-                                    .fetch_clone(dir, https.to_string(), committish, semver, info)
-                                    .await
-                                {
-                                    Ok(_) => {}
-                                    Err(_) => {
-                                        self.fetch_clone(dir, ssh, committish, semver, info)
-                                            .await?;
-                                    }
-                                }
+                                self.fetch_clone(dir, ssh, committish, semver, info).await?;
                             }
                         }
                     } else {
-- 
2.43.0


From bac461bd31e68b1a06db85698d93a09434b84fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 09/72] fix: lockfiles keep dependencies named like keywords,
 and don't list the project as its own package

Dependencies called true, false or null were written unquoted, which made
the lockfile unreadable.
---
 crates/node-maintainer/src/lockfile.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 97918ea..e16d54a 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -105,6 +105,18 @@ impl Lockfile {
             doc.nodes_mut().push(pkg.to_kdl());
         }
         doc.fmt();
+        // The formatter doesn't quote names that would be read as keywords.
+        let deps = (doc.nodes_mut().iter_mut())
+            .filter_map(|node| node.children_mut().as_mut())
+            .flat_map(|fields| fields.nodes_mut().iter_mut())
+            .filter_map(|field| field.children_mut().as_mut())
+            .flat_map(|deps| deps.nodes_mut().iter_mut());
+        for dep in deps {
+            if matches!(dep.name().value(), "true" | "false" | "null") {
+                let quoted = format!("{:?}", dep.name().value());
+                dep.name_mut().set_repr(quoted);
+            }
+        }
         doc
     }
 
@@ -154,6 +166,9 @@ impl Lockfile {
             let packages = npm
                 .packages
                 .iter()
+                // The project itself, and anything else outside `node_modules`,
+                // is not an installed package.
+                .filter(|(path, _)| format!("/{path}").contains("/node_modules/"))
                 .map(|(path, entry)| LockfileNode::from_npm(path, entry))
                 .map(|node| {
                     let node = node?;
-- 
2.43.0


From e5480458b855dd68ee792c9d1429a1534b86f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 10/72] fix: iterating over the entries of a tarball checks its
 integrity

---
 crates/nassun/src/entries.rs | 58 ++++++++++++++++++++++++++++++++----
 crates/nassun/src/tarball.rs |  9 ++++--
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/crates/nassun/src/entries.rs b/crates/nassun/src/entries.rs
index e807ee7..cb97825 100644
--- a/crates/nassun/src/entries.rs
+++ b/crates/nassun/src/entries.rs
@@ -1,4 +1,9 @@
-use std::{borrow::Cow, pin::Pin, task::Poll};
+use std::{
+    borrow::Cow,
+    pin::Pin,
+    sync::{Arc, Mutex},
+    task::Poll,
+};
 
 use async_compression::futures::bufread::GzipDecoder;
 use async_std::{io::BufReader, path::Path};
@@ -14,14 +19,40 @@ use crate::tarball::Tarball;
 type EntriesStream = Box<dyn Stream<Item = Result<Entry>> + Unpin + Send + Sync>;
 #[cfg(target_arch = "wasm32")]
 type EntriesStream = Box<dyn Stream<Item = Result<Entry>> + Unpin>;
+/// Reader that a stream of entries gets its data from.
+#[derive(Clone)]
+pub struct EntriesReader(Arc<Mutex<Tarball>>);
+
+impl EntriesReader {
+    pub(crate) fn new(tarball: Tarball) -> Self {
+        Self(Arc::new(Mutex::new(tarball)))
+    }
+}
+
+impl AsyncRead for EntriesReader {
+    fn poll_read(
+        self: Pin<&mut Self>,
+        cx: &mut std::task::Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<std::io::Result<usize>> {
+        let mut tarball = self.0.lock().expect("tarball reader lock poisoned");
+        Pin::new(&mut *tarball).poll_read(cx, buf)
+    }
+}
+
 /// Stream of tarball entries.
+///
+/// The integrity of the tarball can only be checked once all of its data has
+/// been read, so a mismatch is reported by the last item of the stream.
 pub struct Entries(
-    pub(crate) Archive<GzipDecoder<BufReader<Tarball>>>,
+    pub(crate) Archive<GzipDecoder<BufReader<EntriesReader>>>,
     pub(crate) EntriesStream,
+    /// What's left to be read (and checked) once there's no more entries.
+    pub(crate) Option<EntriesReader>,
 );
 
 impl Entries {
-    pub fn into_inner(self) -> Archive<GzipDecoder<BufReader<Tarball>>> {
+    pub fn into_inner(self) -> Archive<GzipDecoder<BufReader<EntriesReader>>> {
         self.0
     }
 }
@@ -33,12 +64,29 @@ impl Stream for Entries {
         mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<Option<Self::Item>> {
-        Poll::Ready(futures::ready!(Pin::new(&mut self.1).poll_next(cx)))
+        if let Some(entry) = futures::ready!(Pin::new(&mut self.1).poll_next(cx)) {
+            return Poll::Ready(Some(entry));
+        }
+        // Archives end before the tarball data does.
+        let mut buf = [0u8; 1024];
+        while let Some(reader) = self.2.as_mut() {
+            match futures::ready!(Pin::new(reader).poll_read(cx, &mut buf)) {
+                Ok(0) => self.2 = None,
+                Ok(_) => {}
+                Err(e) => {
+                    self.2 = None;
+                    return Poll::Ready(Some(
+                        Err(e).io_context(|| "Failed to read the end of the tarball.".into()),
+                    ));
+                }
+            }
+        }
+        Poll::Ready(None)
     }
 }
 
 /// Entry in a package tarball.
-pub struct Entry(pub(crate) TarEntry<Archive<GzipDecoder<BufReader<Tarball>>>>);
+pub struct Entry(pub(crate) TarEntry<Archive<GzipDecoder<BufReader<EntriesReader>>>>);
 
 impl Entry {
     /// Returns access to the header of this entry in the archive.
diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..96abd49 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -29,7 +29,7 @@ use ssri::{Integrity, IntegrityChecker};
 #[cfg(not(target_arch = "wasm32"))]
 use tempfile::NamedTempFile;
 
-use crate::entries::{Entries, Entry};
+use crate::entries::{Entries, EntriesReader, Entry};
 #[cfg(not(target_arch = "wasm32"))]
 use crate::error::IoContext;
 use crate::error::{NassunError, Result};
@@ -140,7 +140,8 @@ impl Tarball {
 
     /// A `Stream` of extracted entries from this tarball.
     pub(crate) fn entries(self) -> Result<Entries> {
-        let decoder = GzipDecoder::new(BufReader::new(self));
+        let reader = EntriesReader::new(self);
+        let decoder = GzipDecoder::new(BufReader::new(reader.clone()));
         let ar = Archive::new(decoder);
         Ok(Entries(
             ar.clone(),
@@ -157,8 +158,10 @@ impl Tarball {
                                 "reading entry from archive.".into(),
                             )
                         })
-                    }),
+                    })
+                    .fuse(),
             ),
+            Some(reader),
         ))
     }
 }
-- 
2.43.0


From 28b04034b8366ad0fa1a2784def02796d9d15105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 11/72] fix: legacy shasum checksums are hexadecimal

---
 crates/nassun/src/resolver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index f722fcb..506f3e2 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -3,7 +3,7 @@ use std::{fmt::Display, path::PathBuf, sync::Arc};
 use node_semver::{Range as SemVerRange, Version as SemVerVersion};
 use oro_common::CorgiPackument;
 use oro_package_spec::{GitInfo, PackageSpec, VersionSpec};
-use ssri::Integrity;
+use ssri::{Algorithm, Integrity};
 use url::Url;
 
 use crate::error::{IoContext, NassunError};
@@ -282,7 +282,7 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                .map(|s| Integrity::from_hex(s, Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From 0496cc37aecf875754930f417f4e25af51a0816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 12/72] fix: dependency names can't lead out of node_modules

---
 crates/node-maintainer/src/error.rs |  6 ++++++
 crates/node-maintainer/src/graph.rs | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/crates/node-maintainer/src/error.rs b/crates/node-maintainer/src/error.rs
index b3bb79e..fe89be9 100644
--- a/crates/node-maintainer/src/error.rs
+++ b/crates/node-maintainer/src/error.rs
@@ -96,6 +96,12 @@ pub enum NodeMaintainerError {
     #[diagnostic(transparent)]
     PackageSpecError(#[from] oro_package_spec::PackageSpecError),
 
+    /// A package depends on something whose name can't be used as the name of
+    /// a directory in `node_modules`.
+    #[error("Invalid dependency name: {0:?}")]
+    #[diagnostic(code(node_maintainer::invalid_dependency_name), url(docsrs))]
+    InvalidDependencyName(String),
+
     /// Generic IO Error.
     #[error("{0}")]
     #[diagnostic(code(node_maintainer::io_error), url(docsrs))]
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index ac31590..01f8e4f 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -53,6 +53,20 @@ pub struct Node {
     pub(crate) children: IndexMap<UniCase<String>, NodeIndex>,
 }
 
+/// Whether a dependency with this name ends up right inside of the
+/// `node_modules` directory it's placed in, or inside of a scope in there.
+fn is_valid_name(name: &str) -> bool {
+    let (scope, name) = match name.split_once('/') {
+        Some((scope, name)) => (Some(scope), name),
+        None => (None, name),
+    };
+    scope.map_or(true, |scope| scope.starts_with('@') && scope.len() > 1)
+        && !name.is_empty()
+        && !name.starts_with('.')
+        && !name.contains(['/', '\\', '\0'])
+        && !scope.unwrap_or("").contains(['\\', '\0'])
+}
+
 impl Node {
     pub(crate) fn new(
         name: UniCase<String>,
@@ -85,6 +99,9 @@ impl Node {
         };
         let mut dependency_reqs = IndexMap::new();
         for ((name, spec), dep_type) in deps {
+            if !is_valid_name(name) {
+                return Err(NodeMaintainerError::InvalidDependencyName(name.clone()));
+            }
             dependency_reqs.insert(
                 UniCase::new(name.clone()),
                 (format!("{name}@{spec}").parse()?, dep_type),
-- 
2.43.0


From 4d4f9ea5a01dc9b4cc19f6aa840572d6ca66e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 13/72] fix: bins are inside of the package that declares them

---
 crates/oro-common/src/build_manifest.rs | 60 ++++++++++++++++---------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..3a0ca2c 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -47,7 +47,7 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent().unwrap_or_else(|| Path::new("")))
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
@@ -61,10 +61,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, Path::new(""))
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, package_dir: &Path) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +93,23 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
-                    continue;
-                }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+            let bin_dir = package_dir.join(within_package(Path::new(&bin_dir)));
+            let is_hidden = |name: &OsStr| name.to_string_lossy().starts_with('.');
+            if bin_dir.is_dir() {
+                for entry in WalkDir::new(bin_dir)
+                    .sort_by_file_name()
+                    .into_iter()
+                    .filter_entry(|e| e.depth() == 0 || !is_hidden(e.file_name()))
+                {
+                    let entry = entry?;
+                    if !entry.file_type().is_file() {
+                        continue;
+                    }
+                    let path = entry.path();
+                    bin_map.insert(
+                        entry.file_name().to_string_lossy().to_string(),
+                        path.strip_prefix(package_dir).unwrap_or(path).into(),
+                    );
                 }
             }
         };
@@ -133,16 +142,7 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            let bin_target = within_package(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -155,3 +155,19 @@ impl BuildManifest {
         })
     }
 }
+
+/// Resolves a relative path the way it would be if the package were the root
+/// of the filesystem, such that it can't point outside of the package.
+fn within_package(path: &Path) -> PathBuf {
+    let mut resolved = PathBuf::new();
+    for comp in path.components() {
+        match comp {
+            Component::Normal(name) => resolved.push(name),
+            Component::ParentDir => {
+                resolved.pop();
+            }
+            _ => {}
+        }
+    }
+    resolved
+}
-- 
2.43.0


From 191e7c28d6be837c49bb2bbdd04602a43b1a9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 14/72] fix: extracted packages are complete, inside of their
 directory, and have the permissions they were published with

---
 crates/nassun/src/tarball.rs | 165 ++++++++++++++++++++++++-----------
 1 file changed, 113 insertions(+), 52 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 96abd49..b99c2dd 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 #[cfg(not(target_arch = "wasm32"))]
 use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
@@ -213,7 +213,6 @@ impl TempTarball {
         cache: Option<&Path>,
         mut extract_mode: ExtractMode,
     ) -> Result<Integrity> {
-        let mut build_mani: Option<BuildManifest> = None;
         let mut tarball_index = TarballIndex::default();
         let mut drain_buf = [0u8; 1024 * 8];
         let created = dashmap::DashSet::new();
@@ -245,15 +244,21 @@ impl TempTarball {
                 )
             })?;
             let header = file.header();
-            let mode = header.mode().unwrap_or(0o644) | 0o600;
-            let entry_path = header.path().map_err(|e| {
-                NassunError::ExtractIoError(e, None, "reading path from entry header.".into())
+            let mode = (header.mode().unwrap_or(0o644) | 0o600) & 0o755;
+            let is_file = header.entry_type() == tar::EntryType::Regular;
+            // NOTE: the path in the header itself might be a truncated one.
+            let entry_path = file.path().map_err(|e| {
+                NassunError::ExtractIoError(e, None, "reading path from entry.".into())
             })?;
-            let entry_subpath = strip_one(&entry_path)
-                .unwrap_or_else(|| entry_path.as_ref())
-                .to_path_buf();
-            let path = dir.join(&entry_subpath);
-            if let tar::EntryType::Regular = header.entry_type() {
+            let entry_subpath = strip_one(&entry_path);
+            if let (true, None) = (is_file, &entry_subpath) {
+                tracing::warn!(
+                    "Skipping tarball entry that isn't inside the package: {}",
+                    entry_path.display()
+                );
+            }
+            if let (true, Some(entry_subpath)) = (is_file, entry_subpath) {
+                let path = dir.join(&entry_subpath);
                 let parent = path.parent().unwrap();
                 mkdirp(parent, &created)?;
 
@@ -298,18 +303,19 @@ impl TempTarball {
                                 extract_mode = ExtractMode::Auto;
                                 for (entry, (sri, mode)) in &tarball_index.files {
                                     let path = dir.join(entry);
-                                    std::fs::remove_file(&path).io_context(|| format!("Failed to remove target file while extracting a new version, at {}.", path.display()))?;
                                     let sri = sri.parse()?;
                                     extract_from_cache(cache, &sri, &path, extract_mode, *mode)?;
                                 }
+                                extract_from_cache(cache, &sri, &path, extract_mode, mode)?;
                             }
                         }
-                        build_mani = Some(manifest);
                     }
                     tarball_index
                         .files
                         .insert(entry_subpath, (sri.to_string(), mode));
                 } else {
+                    remove_existing(&path)?;
+
                     let mut open_opts = std::fs::OpenOptions::new();
                     open_opts.write(true).create_new(true);
 
@@ -329,13 +335,15 @@ impl TempTarball {
                             )
                         })
                         .map(std::io::BufWriter::new)?;
-                    std::io::copy(&mut file, &mut writer).map_err(|e| {
-                        NassunError::ExtractIoError(
-                            e,
-                            Some(path.clone()),
-                            "Copying file to node_modules destination.".into(),
-                        )
-                    })?;
+                    std::io::copy(&mut file, &mut writer)
+                        .and_then(|_| writer.flush())
+                        .map_err(|e| {
+                            NassunError::ExtractIoError(
+                                e,
+                                Some(path.clone()),
+                                "Copying file to node_modules destination.".into(),
+                            )
+                        })?;
                 }
             } else {
                 loop {
@@ -349,13 +357,30 @@ impl TempTarball {
             }
         }
 
-        if let Some(BuildManifest { bin, .. }) = &build_mani {
+        let manifest_path = dir.join("package.json");
+        if manifest_path.is_file() {
+            let BuildManifest { bin, .. } =
+                BuildManifest::from_path(&manifest_path).io_context(|| {
+                    format!(
+                        "Failed to read BuildManifest from path at {}.",
+                        manifest_path.display()
+                    )
+                })?;
             for binpath in bin.values() {
-                tarball_index
-                    .bin_paths
-                    .push(binpath.to_string_lossy().to_string());
-                #[cfg(unix)]
-                set_bin_mode(&dir.join(binpath))?;
+                let path = dir.join(binpath);
+                let binpath = binpath.to_string_lossy().to_string();
+                if let Some(cache) = cache {
+                    if let Some((sri, mode)) = tarball_index.files.get(&binpath) {
+                        let sri = sri.parse()?;
+                        extract_from_cache(cache, &sri, &path, extract_mode, *mode | 0o111)?;
+                    }
+                } else {
+                    #[cfg(unix)]
+                    if path.is_file() {
+                        set_bin_mode(&path)?;
+                    }
+                }
+                tarball_index.bin_paths.push(binpath);
             }
         }
 
@@ -422,9 +447,22 @@ pub(crate) struct TarballIndex {
 }
 
 #[cfg(not(target_arch = "wasm32"))]
-fn strip_one(path: &Path) -> Option<&Path> {
-    let mut comps = path.components();
-    comps.next().map(|_| comps.as_path())
+/// Path of a tarball entry within its package: without its first component.
+/// `None` if that's not something that can be inside of the package.
+fn strip_one(path: &Path) -> Option<PathBuf> {
+    let mut subpath = PathBuf::new();
+    for comp in path.components().skip(1) {
+        match comp {
+            Component::Normal(name) => subpath.push(name),
+            Component::CurDir => {}
+            _ => return None,
+        }
+    }
+    if subpath.as_os_str().is_empty() {
+        None
+    } else {
+        Some(subpath)
+    }
 }
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -441,11 +479,9 @@ pub(crate) fn extract_from_cache(
     #[allow(unused_variables)] mode: u32,
 ) -> Result<()> {
     match extract_mode {
-        ExtractMode::Auto | ExtractMode::Reflink => {
-            // TODO: Remove the copy_from_cache fallback when we support bundleDeps
-            reflink_from_cache(cache, sri, to).or_else(|_| copy_from_cache(cache, sri, to))?;
-        }
-        ExtractMode::AutoHardlink | ExtractMode::Hardlink => {
+        // Hard links share their permissions with the cache, and with every
+        // other package that has a file with the same contents.
+        ExtractMode::AutoHardlink | ExtractMode::Hardlink if mode == 0o644 => {
             // HACK: This is horrible, but on wsl2 (at least), this
             // was sometimes crashing with an ENOENT (?!), which
             // really REALLY shouldn't happen. So we just retry a few
@@ -465,23 +501,40 @@ pub(crate) fn extract_from_cache(
                 .or_else(|_| copy_from_cache(cache, sri, to))?;
         }
         ExtractMode::Copy => copy_from_cache(cache, sri, to)?,
+        _ => {
+            // TODO: Remove the copy_from_cache fallback when we support bundleDeps
+            reflink_from_cache(cache, sri, to).or_else(|_| copy_from_cache(cache, sri, to))?;
+        }
     }
     #[cfg(unix)]
     {
-        if mode != 0o644 {
-            use std::os::unix::fs::PermissionsExt;
-            std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(to.to_path_buf()),
-                    "setting permissions on extracted file.".into(),
-                )
-            })?;
-        }
+        use std::os::unix::fs::PermissionsExt;
+        std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
+            NassunError::ExtractIoError(
+                e,
+                Some(to.to_path_buf()),
+                "setting permissions on extracted file.".into(),
+            )
+        })?;
     }
     Ok(())
 }
 
+/// Removes a file (if any) that's about to be replaced. It must not be written
+/// to, because it might be a hard link to something in the cache.
+#[cfg(not(target_arch = "wasm32"))]
+fn remove_existing(path: &Path) -> Result<()> {
+    match std::fs::remove_file(path) {
+        Ok(()) => Ok(()),
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+        Err(e) => Err(NassunError::ExtractIoError(
+            e,
+            Some(path.to_path_buf()),
+            "replacing existing file.".into(),
+        )),
+    }
+}
+
 #[cfg(unix)]
 pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
     use std::os::unix::fs::PermissionsExt;
@@ -505,6 +558,7 @@ pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn copy_from_cache(cache: &Path, sri: &Integrity, to: &Path) -> Result<()> {
+    remove_existing(to)?;
     cacache::copy_hash_sync(cache, sri, to)
         .map_err(|e| NassunError::ExtractCacheError(e, Some(PathBuf::from(to))))?;
     Ok(())
@@ -512,6 +566,7 @@ fn copy_from_cache(cache: &Path, sri: &Integrity, to: &Path) -> Result<()> {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn reflink_from_cache(cache: &Path, sri: &Integrity, to: &Path) -> Result<()> {
+    remove_existing(to)?;
     cacache::reflink_hash_sync(cache, sri, to)
         .map_err(|e| NassunError::ExtractCacheError(e, Some(PathBuf::from(to))))?;
     Ok(())
@@ -519,8 +574,12 @@ fn reflink_from_cache(cache: &Path, sri: &Integrity, to: &Path) -> Result<()> {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn hard_link_from_cache(cache: &Path, sri: &Integrity, to: &Path) -> Result<()> {
-    cacache::hard_link_hash_sync(cache, sri, to)
-        .map_err(|e| NassunError::ExtractCacheError(e, Some(PathBuf::from(to))))?;
+    remove_existing(to)?;
+    cacache::hard_link_hash_sync(cache, sri, to).map_err(|e| {
+        // The link is made before its contents are checked.
+        let _ = std::fs::remove_file(to);
+        NassunError::ExtractCacheError(e, Some(PathBuf::from(to)))
+    })?;
     Ok(())
 }
 
@@ -533,13 +592,15 @@ pub(crate) fn mkdirp(path: &Path, cache: &dashmap::DashSet<PathBuf>) -> Result<(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(path.parent().unwrap().into()),
-                    "creating parent directory for entry.".into(),
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(path.parent().unwrap().into()),
+                        "creating parent directory for entry.".into(),
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).map_err(|e| {
-- 
2.43.0


From da6868d7c8beb155cfae20d5b31d5f0a8eed894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 15/72] fix: a lockfile's nested packages are kept, and never
 repeat what's above them

---
 crates/node-maintainer/src/graph.rs    |  61 ++++++++++++-
 crates/node-maintainer/src/resolver.rs | 113 ++++++++++++++++---------
 2 files changed, 134 insertions(+), 40 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 01f8e4f..e47b9ab 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::VecDeque,
+    collections::{HashSet, VecDeque},
     ffi::OsStr,
     ops::{Index, IndexMut},
     path::Path,
@@ -10,7 +10,7 @@ use kdl::KdlDocument;
 use nassun::{package::Package, PackageResolution, PackageSpec};
 use oro_common::CorgiManifest;
 use petgraph::stable_graph::{EdgeIndex, NodeIndex, StableGraph};
-#[cfg(not(target_arch = "wasm32"))]
+use petgraph::visit::EdgeRef;
 use petgraph::Direction;
 use unicase::UniCase;
 
@@ -308,6 +308,63 @@ impl Graph {
         }))
     }
 
+    /// Removes packages that repeat what would be found further up anyway. A
+    /// lockfile can lead to those, when what it asks to be placed deeper down
+    /// is later also placed above.
+    pub(crate) fn dedupe(&mut self) {
+        let mut q = VecDeque::from([self.root]);
+        let mut removed = false;
+        while let Some(idx) = q.pop_front() {
+            for (name, child_idx) in self[idx].children.clone() {
+                let same = self[idx]
+                    .parent
+                    .and_then(|parent| self.resolve_dep(parent, &name))
+                    .filter(|same| {
+                        self[*same].package.resolved() == self[child_idx].package.resolved()
+                    });
+                let Some(same) = same else {
+                    q.push_back(child_idx);
+                    continue;
+                };
+                let edges = self
+                    .inner
+                    .edges_directed(child_idx, Direction::Incoming)
+                    .map(|edge| (edge.id(), edge.source()))
+                    .collect::<Vec<_>>();
+                for (edge_idx, dependent_idx) in edges {
+                    if let Some(edge) = self.inner.remove_edge(edge_idx) {
+                        let edge_idx = self.inner.add_edge(dependent_idx, same, edge);
+                        self[dependent_idx]
+                            .dependencies
+                            .insert(name.clone(), edge_idx);
+                    }
+                }
+                self[idx].children.remove(&name);
+                removed = true;
+            }
+        }
+        if removed {
+            self.remove_unreachable();
+        }
+    }
+
+    /// Removes everything that no package depends on, starting from the root.
+    fn remove_unreachable(&mut self) {
+        let mut reachable = HashSet::from([self.root]);
+        let mut q = VecDeque::from([self.root]);
+        while let Some(idx) = q.pop_front() {
+            q.extend(
+                self.inner
+                    .neighbors(idx)
+                    .filter(|dep| reachable.insert(*dep)),
+            );
+        }
+        self.inner.retain_nodes(|_, idx| reachable.contains(&idx));
+        for node in self.inner.node_weights_mut() {
+            node.children.retain(|_, idx| reachable.contains(idx));
+        }
+    }
+
     pub(crate) fn node_path(&self, node_idx: NodeIndex) -> VecDeque<UniCase<String>> {
         let node = &self.inner[node_idx];
         let mut path = VecDeque::new();
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index c7ab134..f10cca7 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -129,35 +129,48 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep, None)?
-                    {
-                        if let Some(handler) = &self.on_resolve_progress {
-                            handler(&self.graph[_child_idx].package, dep.start.elapsed());
-                        }
-                    }
+                    // If we have a lockfile, first check if there's a
+                    // dep there that would satisfy this.
+                    let lock = if lockfile.is_some() {
+                        &lockfile
+                    } else {
+                        // Fall back to the actual tree lock if it's there.
+                        &self.actual_tree
+                    };
+                    let locked = if let Some(kdl_lock) = lock {
+                        self.satisfy_from_lockfile(
+                            &self.graph,
+                            node_idx,
+                            kdl_lock,
+                            &name,
+                            &dep.spec,
+                        )
+                        .await?
+                    } else {
+                        None
+                    };
+                    // What the lockfile wants this to have for itself isn't
+                    // replaced by something else from further up.
+                    let keep_locked =
+                        (locked.as_ref()).map_or(false, |(package, lockfile_node)| {
+                            Self::is_locked_below(&self.graph, &dep, package, &lockfile_node.path)
+                        });
+                    let satisfier_idx = if keep_locked {
+                        None
+                    } else {
+                        Self::satisfy_dependency(&mut self.graph, &dep, None)?
+                    };
+
                     // Walk up the current hierarchy to see if we find a
                     // dependency that already satisfies this request. If so,
                     // make a new edge and move on.
-                    else {
-                        // If we have a lockfile, first check if there's a
-                        // dep there that would satisfy this.
-                        let lock = if lockfile.is_some() {
-                            &lockfile
-                        } else {
-                            // Fall back to the actual tree lock if it's there.
-                            &self.actual_tree
-                        };
-                        if let Some(kdl_lock) = lock {
-                            if let Some((package, lockfile_node)) = self
-                                .satisfy_from_lockfile(
-                                    &self.graph,
-                                    node_idx,
-                                    kdl_lock,
-                                    &name,
-                                    &dep.spec,
-                                )
-                                .await?
-                            {
+                    if let Some(_child_idx) = satisfier_idx {
+                        if let Some(handler) = &self.on_resolve_progress {
+                            handler(&self.graph[_child_idx].package, dep.start.elapsed());
+                        }
+                    } else {
+                        if let Some((package, lockfile_node)) = locked {
+                            if !keep_locked {
                                 if let Some(child_idx) =
                                     Self::satisfy_dependency(&mut self.graph, &dep, Some(&package))?
                                 {
@@ -169,22 +182,22 @@ impl<'a> Resolver<'a> {
                                     }
                                     continue;
                                 }
+                            }
 
-                                let target_path = lockfile_node.path.clone();
+                            let target_path = lockfile_node.path.clone();
 
-                                let child_idx = Self::place_child(
-                                    &mut self.graph,
-                                    &dep,
-                                    Node::new(name.clone(), package, lockfile_node.into(), false)?,
-                                    Some(target_path),
-                                    &mut q,
-                                )?;
+                            let child_idx = Self::place_child(
+                                &mut self.graph,
+                                &dep,
+                                Node::new(name.clone(), package, lockfile_node.into(), false)?,
+                                Some(target_path),
+                                &mut q,
+                            )?;
 
-                                if let Some(handler) = &self.on_resolve_progress {
-                                    handler(&self.graph[child_idx].package, dep.start.elapsed());
-                                }
-                                continue;
+                            if let Some(handler) = &self.on_resolve_progress {
+                                handler(&self.graph[child_idx].package, dep.start.elapsed());
                             }
+                            continue;
                         }
 
                         // Otherwise, we have to fetch package metadata to
@@ -266,6 +279,8 @@ impl<'a> Resolver<'a> {
             }
         }
 
+        self.graph.dedupe();
+
         if self.locked {
             if let Some(lockfile) = lockfile {
                 if !lockfile.same_tree(&self.graph.to_lockfile()?) {
@@ -308,6 +323,28 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether the lockfile has `package` at a `path` that `dep` finds before
+    /// (and instead of) what's already been placed further up.
+    fn is_locked_below(
+        graph: &Graph,
+        dep: &NodeDependency,
+        package: &Package,
+        path: &[UniCase<String>],
+    ) -> bool {
+        for node in graph.node_parent_iter(dep.node_idx) {
+            if node.children.contains_key(&dep.name) {
+                return false;
+            }
+            if graph.node_path(node.idx).iter().eq(&path[..path.len() - 1]) {
+                // There's no need for another copy of the very same package.
+                return graph.resolve_dep(node.idx, &dep.name).map_or(false, |idx| {
+                    graph[idx].package.resolved() != package.resolved()
+                });
+            }
+        }
+        false
+    }
+
     async fn satisfy_from_lockfile(
         &self,
         graph: &Graph,
-- 
2.43.0


From 90f6a6bedfba20f2f0e5dc48e6bc8c8c025ea9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 16/72] fix: recovering a package from a damaged cache doesn't
 pull files from under others

---
 crates/nassun/src/package.rs | 38 ++++++------------------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..a74a5c0 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -225,13 +225,12 @@ impl Package {
                         // extract.
                         Err(e) => {
                             tracing::warn!("extracting package {:?} from cache failed, possily due to cache corruption: {e}", self.resolved());
-                            if let Some(entry) =
-                                cacache::index::find(cache, &crate::tarball::tarball_key(&sri))
-                                    .map_err(|e| NassunError::ExtractCacheError(e, None))?
-                            {
-                                tracing::debug!("removing corrupted cache entry.");
-                                clean_from_cache(cache, &sri, entry)?;
-                            }
+                            tracing::debug!("removing corrupted cache entry.");
+                            // The contents it refers to might be in use by
+                            // other packages, and will be replaced by good
+                            // ones where needed.
+                            cacache::remove_sync(cache, crate::tarball::tarball_key(&sri))
+                                .map_err(|e| NassunError::ExtractCacheError(e, None))?;
                             return self
                                 .tarball_checked(sri)
                                 .await?
@@ -318,28 +317,3 @@ impl fmt::Debug for Package {
             .finish()
     }
 }
-
-#[cfg(not(target_arch = "wasm32"))]
-fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> {
-    let index = rkyv::check_archived_root::<TarballIndex>(
-        entry
-            .raw_metadata
-            .as_ref()
-            .ok_or_else(|| NassunError::CacheMissingIndexError("".into()))?,
-    )
-    .map_err(|e| NassunError::DeserializeCacheError(e.to_string()))?;
-    for (sri, _) in index.files.values() {
-        let sri: Integrity = sri.as_str().parse()?;
-        match cacache::remove_hash_sync(cache, &sri) {
-            Ok(_) => {}
-            // We don't care if the file doesn't exist.
-            Err(cacache::Error::IoError(e, _)) if e.kind() == std::io::ErrorKind::NotFound => {}
-            Err(e) => {
-                return Err(NassunError::ExtractCacheError(e, None));
-            }
-        }
-    }
-    cacache::remove_sync(cache, crate::tarball::tarball_key(sri))
-        .map_err(|e| NassunError::ExtractCacheError(e, None))?;
-    Ok(())
-}
-- 
2.43.0


From eaacad294041dc753107b9432d5397ef006d421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 17/72] fix: packages that only optional packages need are
 optional themselves

---
 crates/node-maintainer/src/graph.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index e47b9ab..47593d8 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -185,10 +185,19 @@ impl IndexMut<EdgeIndex> for Graph {
 impl Graph {
     #[cfg(not(target_arch = "wasm32"))]
     pub fn is_optional(&self, node: NodeIndex) -> bool {
-        for edge_ref in self.inner.edges_directed(node, Direction::Incoming) {
-            if edge_ref.weight().dep_type != DepType::Opt {
+        // It's only optional if nothing that isn't optional itself needs it.
+        let mut required = HashSet::from([self.root]);
+        let mut queue = vec![self.root];
+        while let Some(idx) = queue.pop() {
+            if idx == node {
                 return false;
             }
+            for edge_ref in self.inner.edges_directed(idx, Direction::Outgoing) {
+                if edge_ref.weight().dep_type != DepType::Opt && required.insert(edge_ref.target())
+                {
+                    queue.push(edge_ref.target());
+                }
+            }
         }
         true
     }
-- 
2.43.0


From 93af56a35da78027086370d5012dd08782fc8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 18/72] fix: applying leaves exactly the resolved tree in
 node_modules

Pruning reaches nested packages in hoisted mode and stale links in isolated mode, an updated package gets a new place in the store, all executables are linked on every apply (in a fixed order), and the record of what's installed only exists while nothing is unfinished.
---
 crates/node-maintainer/src/linkers/hoisted.rs | 309 ++++-------
 .../node-maintainer/src/linkers/isolated.rs   | 496 ++++++------------
 crates/node-maintainer/src/linkers/mod.rs     | 148 +++++-
 crates/oro-common/src/lib.rs                  |   2 +
 crates/oro-common/src/write.rs                |  28 +
 5 files changed, 409 insertions(+), 574 deletions(-)
 create mode 100644 crates/oro-common/src/write.rs

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..c4ad5a6 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,5 @@
 use std::collections::HashSet;
-use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -11,11 +10,10 @@ use nassun::ExtractMode;
 use oro_common::BuildManifest;
 use petgraph::stable_graph::NodeIndex;
 use unicase::UniCase;
-use walkdir::WalkDir;
 
 use crate::error::{IoContext, NodeMaintainerError};
 use crate::graph::Graph;
-use crate::{META_FILE_NAME, STORE_DIR_NAME};
+use crate::STORE_DIR_NAME;
 
 use super::LinkerOptions;
 
@@ -104,125 +102,8 @@ impl HoistedLinker {
             return Ok(0);
         }
 
-        let nm_osstr = Some(std::ffi::OsStr::new("node_modules"));
-        let bin_osstr = Some(std::ffi::OsStr::new(".bin"));
-        let meta = prefix.join(META_FILE_NAME);
         let mut extraneous_packages = 0;
-        let extraneous = &mut extraneous_packages;
-
-        for entry in WalkDir::new(&prefix)
-            .into_iter()
-            .filter_entry(move |entry| {
-                let entry_path = entry.path();
-
-                if entry_path == meta {
-                    // Skip the meta file
-                    return false;
-                }
-
-                let file_name = entry_path.file_name();
-
-                if file_name == nm_osstr {
-                    // We don't want to skip node_modules themselves
-                    return true;
-                }
-
-                if file_name == bin_osstr {
-                    return false;
-                }
-
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
-                    // Let scoped packages through.
-                    return true;
-                }
-
-                // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
-                {
-                    let entry_subpath_path = entry_path
-                        .strip_prefix(&prefix)
-                        .expect("this should definitely be under the prefix");
-                    let entry_subpath =
-                        UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
-
-                    let actual = self
-                        .opts
-                        .actual_tree
-                        .as_ref()
-                        .and_then(|tree| tree.packages.get(&entry_subpath));
-                    let ideal = graph
-                        .node_at_path(entry_subpath_path)
-                        .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
-                    // If the package is not in the actual tree, or it doesn't
-                    // match up with what the ideal tree wants, it's
-                    // extraneous. We want to return true for those so we
-                    // delete them later.
-                    if ideal.is_some()
-                        && self
-                            .opts
-                            .actual_tree
-                            .as_ref()
-                            .map(|tree| tree.packages.contains_key(&entry_subpath))
-                            .unwrap_or(false)
-                        && actual == ideal.as_ref()
-                    {
-                        return false;
-                    } else {
-                        *extraneous += 1;
-                        return true;
-                    }
-                }
-
-                // We're not interested in any other files than the package dirs themselves.
-                false
-            })
-        {
-            let entry = entry?;
-            let entry_path = entry.path();
-            let file_name = entry_path.file_name();
-            if file_name == nm_osstr
-                || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
-            {
-                continue;
-            } else if entry.file_type().is_dir() {
-                if let Some(pb) = &self.opts.on_prune_progress {
-                    pb(entry_path);
-                }
-                tracing::trace!("Pruning extraneous directory: {}", entry.path().display());
-                async_std::fs::remove_dir_all(entry.path())
-                    .await
-                    .io_context(|| {
-                        format!(
-                            "Failed to prune extraneous directory at {}",
-                            entry.path().display()
-                        )
-                    })?;
-            } else {
-                if let Some(pb) = &self.opts.on_prune_progress {
-                    pb(entry_path);
-                }
-                tracing::trace!("Pruning extraneous file: {}", entry.path().display());
-                async_std::fs::remove_file(entry.path())
-                    .await
-                    .io_context(|| {
-                        format!(
-                            "Failed to prune extraneous file at {}",
-                            entry.path().display()
-                        )
-                    })?;
-            }
-        }
+        self.prune_dir(graph, &prefix, false, &mut extraneous_packages)?;
 
         if extraneous_packages == 0 {
             tracing::debug!(
@@ -239,6 +120,71 @@ impl HoistedLinker {
         Ok(extraneous_packages)
     }
 
+    /// Removes everything extraneous from a `node_modules` directory, or from
+    /// a scope directory inside of one, and from the `node_modules` of the
+    /// packages in it that stay.
+    fn prune_dir(
+        &self,
+        graph: &Graph,
+        dir: &Path,
+        nested: bool,
+        extraneous: &mut usize,
+    ) -> Result<(), NodeMaintainerError> {
+        let prefix = self.opts.root.join("node_modules");
+        let mut removed = false;
+        for entry in super::dir_entries(dir)? {
+            let path = dir.join(&entry);
+            let file_name = entry.to_string_lossy();
+            if file_name == ".bin" {
+                // Executables are linked again later on.
+                continue;
+            }
+            let is_dir = super::is_real_dir(&path);
+            if is_dir && file_name.starts_with('@') && !super::is_scope(dir) {
+                self.prune_dir(graph, &path, nested, extraneous)?;
+                removed = super::remove_if_empty(&path)? || removed;
+                continue;
+            }
+
+            let subpath = path
+                .strip_prefix(&prefix)
+                .expect("this should definitely be under the prefix");
+            let subpath_str = UniCase::new(subpath.to_string_lossy().replace('\\', "/"));
+            let actual = self
+                .opts
+                .actual_tree
+                .as_ref()
+                .and_then(|tree| tree.packages.get(&subpath_str));
+            let ideal = graph
+                .node_at_path(subpath)
+                .filter(|node| UniCase::new(graph.node_path_string(node.idx)) == subpath_str)
+                .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
+            if is_dir && actual.is_some() && actual == ideal.as_ref() {
+                let nested_modules = path.join("node_modules");
+                if super::is_real_dir(&nested_modules) {
+                    self.prune_dir(graph, &nested_modules, true, extraneous)?;
+                }
+            } else if !nested || actual.is_some() || ideal.is_some() {
+                // If the package is not in the actual tree, or it doesn't
+                // match up with what the ideal tree wants, it's extraneous.
+                // What the actual tree doesn't know about, inside of a
+                // package, came with that package.
+                if let Some(pb) = &self.opts.on_prune_progress {
+                    pb(&path);
+                }
+                tracing::trace!("Pruning extraneous entry: {}", path.display());
+                super::remove_any(&path)?;
+                *extraneous += 1;
+                removed = true;
+            }
+        }
+        if nested && removed && !super::is_scope(dir) {
+            super::remove_any(&dir.join(".bin"))?;
+            super::remove_if_empty(dir)?;
+        }
+        Ok(())
+    }
+
     pub async fn extract(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         tracing::debug!("Extracting node_modules/...");
         let start = std::time::Instant::now();
@@ -343,9 +289,6 @@ impl HoistedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string())
-            .io_context(|| format!("Failed to write Orogene meta file to {}.", meta.display()))?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
@@ -357,100 +300,32 @@ impl HoistedLinker {
     }
 
     pub async fn link_bins(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
-        let root = &self.opts.root;
-        let linked = Arc::new(AtomicUsize::new(0));
-        let bin_file_name = Some(OsStr::new(".bin"));
-        let nm_file_name = Some(OsStr::new("node_modules"));
-        for entry in WalkDir::new(root.join("node_modules"))
-            .into_iter()
-            .filter_entry(|e| {
-                let path = e.path().file_name();
-                path == bin_file_name || path == nm_file_name
-            })
-        {
-            let entry = entry?;
-            if entry.path().file_name() == bin_file_name {
-                async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
+        let root_modules = self.opts.root.join("node_modules");
+        let mut linked = 0;
+        for parent in graph.inner.node_indices() {
+            let modules = if parent == graph.root {
+                root_modules.clone()
+            } else {
+                self.package_dir(graph, parent).0.join("node_modules")
+            };
+            if parent != graph.root && graph[parent].children.is_empty() {
+                continue;
+            }
+            let bin_dir = modules.join(".bin");
+            super::remove_any(&bin_dir)?;
+            // The executables of what this package asked for itself come
+            // before those of packages that only happen to be next to it.
+            let mut children = graph[parent]
+                .children
+                .iter()
+                .map(|(name, idx)| (!graph[parent].dependencies.contains_key(name), name, *idx))
+                .collect::<Vec<_>>();
+            children.sort();
+            for (_, _, idx) in children {
+                let package_dir = self.package_dir(graph, idx).0;
+                linked += super::link_package_bins(&package_dir, &bin_dir)?;
             }
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
-            .map(|idx| Ok((idx, linked.clone())))
-            .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
-                if idx == graph.root {
-                    return Ok(());
-                }
-
-                let subdir = graph
-                    .node_path(idx)
-                    .iter()
-                    .map(|x| x.to_string())
-                    .collect::<Vec<_>>()
-                    .join("/node_modules/");
-                let package_dir = root.join("node_modules").join(subdir);
-                let parent = package_dir.parent().expect("must have parent");
-                let target_dir = if parent.file_name() == Some(OsStr::new("node_modules")) {
-                    parent.join(".bin")
-                } else {
-                    // Scoped
-                    parent.parent().expect("must have parent").join(".bin")
-                };
-
-                let build_mani = BuildManifest::from_path(package_dir.join("package.json"))
-                    .map_err(|e| {
-                        NodeMaintainerError::BuildManifestReadError(
-                            package_dir.join("package.json"),
-                            e,
-                        )
-                    })?;
-
-                for (name, path) in &build_mani.bin {
-                    let target_dir = target_dir.clone();
-                    let to = target_dir.join(name);
-                    let from = package_dir.join(path);
-                    let name = name.clone();
-                    let mkdir_cache = self.mkdir_cache.clone();
-                    async_std::task::spawn_blocking(move || {
-                        // We only create a symlink if the target bin exists.
-                        let target_dir = &target_dir;
-                        if from.symlink_metadata().is_ok() {
-                            super::mkdirp(target_dir, &mkdir_cache)?;
-                            // TODO: use a DashMap here to prevent race conditions, maybe?
-                            if let Ok(meta) = to.symlink_metadata() {
-                                if meta.is_dir() {
-                                    std::fs::remove_dir_all(&to).io_context(|| {
-                                        format!(
-                                            "Failed to remove existing bin dir at {} while linking {} bin.",
-                                            to.display(),
-                                            name,
-                                        )
-                                    })?;
-                                } else {
-                                    std::fs::remove_file(&to).io_context(|| {
-                                        format!(
-                                            "Failed to remove existing bin file at {} while linking {} bin.",
-                                            to.display(),
-                                            name,
-                                        )
-                                    })?;
-                                }
-                            }
-                            super::link_bin(&from, &to)?;
-                            tracing::trace!(
-                                "Linked bin for {} from {} to {}",
-                                name,
-                                from.display(),
-                                to.display()
-                            );
-                        }
-                        Ok::<_, NodeMaintainerError>(())
-                    })
-                    .await?;
-                    linked.fetch_add(1, atomic::Ordering::SeqCst);
-                }
-                Ok::<_, NodeMaintainerError>(())
-            })
-            .await?;
-        let linked = linked.load(atomic::Ordering::SeqCst);
         Ok(linked)
     }
 
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..4e43400 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BinaryHeap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     sync::{
         atomic::{self, AtomicUsize},
@@ -14,13 +14,12 @@ use oro_common::BuildManifest;
 use petgraph::{stable_graph::NodeIndex, visit::EdgeRef, Direction};
 use ssri::Integrity;
 
-use crate::{error::IoContext, graph::Graph, NodeMaintainerError, META_FILE_NAME, STORE_DIR_NAME};
+use crate::{error::IoContext, graph::Graph, NodeMaintainerError, STORE_DIR_NAME};
 
 use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -100,226 +98,64 @@ impl IsolatedLinker {
             return Ok(0);
         }
 
-        let mut expected = HashSet::new();
+        let mut pruned = 0;
 
-        let expected_mut = &mut expected;
-        let store_ref = &store;
-        // Clean out individual node_modules within
-        let indices = graph.inner.node_indices().map(move |idx| {
-            if idx != graph.root {
-                let pkg_store_dir = store_ref.join(package_dir_name(graph, idx));
-
-                expected_mut.insert(pkg_store_dir);
+        // Clean out everything in the individual node_modules that isn't a
+        // link to the right place.
+        for idx in graph.inner.node_indices() {
+            let modules = self.modules_dir(graph, idx);
+            if !super::is_real_dir(&modules) {
+                continue;
             }
-            idx
-        });
-
-        let prefix_ref = &prefix;
-        futures::stream::iter(indices)
-            .map(Ok)
-            .try_for_each_concurrent(self.opts.concurrency, move |idx| async move {
-                let pkg = &graph[idx].package;
-
-                let pkg_nm = if idx == graph.root {
-                    prefix_ref.to_owned()
+            let expected = self.dep_links(graph, idx).collect::<HashMap<_, _>>();
+            let is_root = idx == graph.root;
+            for entry in super::dir_entries(&modules)? {
+                let path = modules.join(&entry);
+                let skip = entry == ".bin" || (is_root && path == store);
+                if skip {
+                    continue;
+                } else if super::is_scope(&path) && super::is_real_dir(&path) {
+                    for entry in super::dir_entries(&path)? {
+                        pruned += self.prune_entry(&path.join(&entry), &expected, is_root)?;
+                    }
+                    super::remove_if_empty(&path)?;
                 } else {
-                    store_ref
-                        .join(package_dir_name(graph, idx))
-                        .join("node_modules")
-                        .join(pkg.name())
-                        .join("node_modules")
-                };
-                let pkg_nm_ref = &pkg_nm;
-
-                let mut expected_deps = HashMap::new();
-
-                for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
-                    let dep_pkg = &graph[edge.target()].package;
-                    let dep_store_dir = async_std::path::PathBuf::from(
-                        store_ref
-                            .join(package_dir_name(graph, edge.target()))
-                            .join("node_modules")
-                            .join(dep_pkg.name()),
-                    );
-                    let dep_nm_entry = async_std::path::PathBuf::from(pkg_nm.join(dep_pkg.name()));
-                    expected_deps.insert(dep_nm_entry, dep_store_dir);
-                }
-
-                if async_std::path::Path::new(&pkg_nm).exists().await {
-                    let expected_ref = Arc::new(expected_deps);
-
-                    async_std::fs::read_dir(&pkg_nm)
-                        .await
-                        .io_context(|| {
-                            format!(
-                                "Failed to read contents of node_modules at {}.",
-                                pkg_nm.display()
-                            )
-                        })?
-                        .map(|e| Ok((e, expected_ref.clone())))
-                        .try_for_each(move |(entry, expected)| async move {
-                            let entry = entry.io_context(|| {
-                                format!(
-                                    "Failed to read directory entry from prefix at {}.",
-                                    pkg_nm_ref.display()
-                                )
-                            })?;
-                            let path = entry.path();
-                            if let Some(target) = expected.get(&path) {
-                                let target = target.clone();
-                                let ty = entry.file_type().await.io_context(|| {
-                                    format!(
-                                        "Failed to get file type from entry at {}.",
-                                        entry.path().display()
-                                    )
-                                })?;
-                                if ty.is_file() {
-                                    async_std::fs::remove_file(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to delete file at {} while pruning node_modules.",
-                                            entry.path().display()
-                                        )
-                                    })?;
-                                } else if ty.is_dir() {
-                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to rimraf contents of directory at {} while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })?;
-                                } else if ty.is_symlink() && target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
-                                    if async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                } else {
-                                    #[cfg(windows)]
-                                    let path_clone = path.clone();
-                                    #[cfg(windows)]
-                                    if async_std::task::spawn_blocking(move || {
-                                        Ok::<_, std::io::Error>(
-                                            !junction::exists(&path_clone)?
-                                                || async_std::path::PathBuf::from(
-                                                    &junction::get_target(&path_clone)?,
-                                                ) != target,
-                                        )
-                                    })
-                                    .await.io_context(|| {
-                                        format!(
-                                            "Failed to check if {} is a junction while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })? && async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                }
-                            }
-                            Ok::<_, NodeMaintainerError>(())
-                        })
-                        .await?;
+                    pruned += self.prune_entry(&path, &expected, is_root)?;
                 }
-
-                Ok::<_, NodeMaintainerError>(())
-            })
-            .await?;
-
-        let expected_ref = &expected;
-
-        let pruned = Arc::new(AtomicUsize::new(0));
+            }
+            if !is_root && expected.is_empty() {
+                // Executables are only linked for dependencies.
+                super::remove_any(&modules.join(".bin"))?;
+                super::remove_if_empty(&modules)?;
+            }
+        }
 
         // Clean out any extraneous things in the store dir itself. We've
         // already verified the store dir at least exists.
-        async_std::fs::read_dir(&store)
-            .await
-            .io_context(|| {
-                format!(
-                    "Failed to read contents of package store at {} while pruning node_modules.",
-                    store.display()
-                )
-            })?
-            .map(|entry| Ok((entry, pruned.clone())))
-            .try_for_each_concurrent(self.opts.concurrency, move |(entry, pruned)| async move {
-                let entry = entry.io_context(|| {
-                    format!(
-                        "Failed to read directory entry from package store at {} while pruning node_modules.",
-                        store_ref.display()
-                    )
-                })?;
-                let _path = entry.path();
-                let path: &Path = _path.as_ref();
-                if !expected_ref.contains(path) {
-                    let ty = entry.file_type().await.io_context(|| format!("Failed to get file type for package store entry at {} while pruning node_modules.", path.display()))?;
-                    if ty.is_dir() {
-                        if path
-                            .file_name()
-                            .expect("must have filename")
-                            .to_string_lossy()
-                            .starts_with('@')
-                        {
-                            let mut iter = async_std::fs::read_dir(path).await.io_context(|| {
-                                format!("Failed to read directory {} while pruning scoped package dir in package store.", path.display())
-                            })?;
-                            while let Some(next) = iter.next().await {
-                                let next = next.io_context(|| {
-                                    format!("Failed to read dir entry from {} while pruning scoped package dir in package store.", path.display())
-                                })?;
-                                if !expected_ref.contains::<std::path::PathBuf>(&next.path().into())
-                                {
-                                    let ty = next.file_type().await.io_context(|| {
-                                        format!("Failed to get file type for entry at {} while pruning scoped package dir in package store.", next.path().display())
-                                    })?;
-                                    if ty.is_file() {
-                                        async_std::fs::remove_file(next.path()).await.io_context(|| {
-                                            format!("Failed to delete file at {} while pruning scoped package dir in package store.", next.path().display())
-                                        })?;
-                                    } else if ty.is_dir() {
-                                        async_std::fs::remove_dir_all(next.path()).await.io_context(|| {
-                                            format!("Failed to rimraf contents of directory at {} while pruning scoped package dir in package store.", next.path().display())
-                                        })?;
-                                    } else if ty.is_symlink()
-                                        && async_std::fs::remove_file(next.path()).await.is_err()
-                                    {
-                                        async_std::fs::remove_dir_all(next.path()).await.io_context(|| {
-                                            format!("Failed to delete {} while pruning scoped package dir in package store.", next.path().display())
-                                        })?;
-                                    }
-                                    pruned.fetch_add(1, atomic::Ordering::SeqCst);
-                                }
-                            }
-                        } else {
-                            async_std::fs::remove_dir_all(entry.path()).await.io_context(|| {
-                                format!("Failed to rimraf contents of directory at {} while pruning node_modules.", entry.path().display())
-                            })?;
-                            pruned.fetch_add(1, atomic::Ordering::SeqCst);
-                        }
-                    } else if ty.is_file() {
-                        async_std::fs::remove_file(entry.path()).await.io_context(|| {
-                            format!("Failed to delete file at {} while pruning node_modules.", entry.path().display())
-                        })?;
-                        pruned.fetch_add(1, atomic::Ordering::SeqCst);
-                    } else if ty.is_symlink()
-                        && async_std::fs::remove_file(entry.path()).await.is_err()
-                    {
-                        async_std::fs::remove_dir_all(entry.path()).await.io_context(|| {
-                            format!("Failed to delete {} while pruning node_modules.", entry.path().display())
-                        })?;
-                        pruned.fetch_add(1, atomic::Ordering::SeqCst);
+        let expected = graph
+            .inner
+            .node_indices()
+            .filter(|idx| *idx != graph.root)
+            .map(|idx| store.join(package_dir_name(graph, idx)))
+            .collect::<HashSet<_>>();
+        for entry in super::dir_entries(&store)? {
+            let path = store.join(&entry);
+            if super::is_scope(&path) && super::is_real_dir(&path) {
+                for entry in super::dir_entries(&path)? {
+                    let path = path.join(&entry);
+                    if !expected.contains(&path) {
+                        self.prune_any(&path)?;
+                        pruned += 1;
                     }
                 }
-                Ok::<_, NodeMaintainerError>(())
-            })
-            .await?;
+                super::remove_if_empty(&path)?;
+            } else if !expected.contains(&path) {
+                self.prune_any(&path)?;
+                pruned += 1;
+            }
+        }
+        super::remove_if_empty(&store)?;
 
-        let pruned = pruned.load(atomic::Ordering::SeqCst);
         if pruned == 0 {
             tracing::debug!(
                 "Nothing to prune. Completed check in {}ms.",
@@ -335,17 +171,74 @@ impl IsolatedLinker {
         Ok(pruned)
     }
 
+    fn prune_any(&self, path: &Path) -> Result<(), NodeMaintainerError> {
+        if let Some(pb) = &self.opts.on_prune_progress {
+            pb(path);
+        }
+        tracing::trace!("Pruning extraneous entry: {}", path.display());
+        super::remove_any(path)
+    }
+
+    /// Removes something in a node_modules directory, unless it's a link to
+    /// where it's expected to point to. What came with a package, and so
+    /// isn't a link, stays.
+    fn prune_entry(
+        &self,
+        path: &Path,
+        expected: &HashMap<PathBuf, PathBuf>,
+        is_root: bool,
+    ) -> Result<usize, NodeMaintainerError> {
+        if !is_root && super::is_real_dir(path) {
+            return Ok(0);
+        }
+        if let Some(target) = expected.get(path) {
+            if let Ok(link) = path.read_link() {
+                if link == *target || Some(link) == relative_target(path, target) {
+                    return Ok(0);
+                }
+            }
+        }
+        self.prune_any(path)?;
+        Ok(1)
+    }
+
+    /// Where a package's dependencies are linked from.
+    fn modules_dir(&self, graph: &Graph, idx: NodeIndex) -> PathBuf {
+        if idx == graph.root {
+            self.opts.root.join("node_modules")
+        } else {
+            self.package_dir(graph, idx).0.join("node_modules")
+        }
+    }
+
+    /// Links to the dependencies of a package, with the directories they
+    /// point to.
+    fn dep_links<'a>(
+        &'a self,
+        graph: &'a Graph,
+        idx: NodeIndex,
+    ) -> impl Iterator<Item = (PathBuf, PathBuf)> + 'a {
+        let modules = self.modules_dir(graph, idx);
+        graph
+            .inner
+            .edges_directed(idx, Direction::Outgoing)
+            .map(move |edge| {
+                let dep = edge.target();
+                (
+                    modules.join(graph[dep].name.to_string()),
+                    self.package_dir(graph, dep).0,
+                )
+            })
+    }
+
     pub async fn extract(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         tracing::debug!("Applying node_modules/...");
         let start = std::time::Instant::now();
 
         let root = &self.opts.root;
-        let store = root.join("node_modules").join(STORE_DIR_NAME);
-        let store_ref = &store;
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -372,7 +265,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -383,24 +275,17 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
-                        self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
-                            .await?;
+                        self.link_deps(graph, child_idx).await?;
                         return Ok(());
                     }
 
                     concurrent_count.fetch_add(1, atomic::Ordering::SeqCst);
 
-                    let pkg = &graph[child_idx].package;
-
                     // Actual package contents are extracted to
                     // `node_modules/.oro-store/<package-name>-<hash>/node_modules/<package-name>`
-                    let target_dir = store_ref
-                        .join(package_dir_name(graph, child_idx))
-                        .join("node_modules")
-                        .join(pkg.name());
+                    let target_dir = self.package_dir(graph, child_idx).0;
 
                     let start = std::time::Instant::now();
 
@@ -427,18 +312,9 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
-                    self.link_deps(
-                        graph,
-                        child_idx,
-                        store_ref,
-                        &target_dir.join("node_modules"),
-                    )
-                    .await?;
+                    self.link_deps(graph, child_idx).await?;
 
                     let elapsed = start.elapsed();
 
@@ -459,13 +335,6 @@ impl IsolatedLinker {
                 },
             )
             .await?;
-        let meta = node_modules.join(META_FILE_NAME);
-        std::fs::write(&meta, graph.to_kdl()?.to_string()).io_context(|| {
-            format!(
-                "Failed to write Orogene meta file into node_modules, at {}.",
-                meta.display()
-            )
-        })?;
         let extracted_count = actually_extracted.load(atomic::Ordering::SeqCst);
 
         tracing::debug!(
@@ -477,21 +346,26 @@ impl IsolatedLinker {
     }
 
     pub async fn link_bins(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
-        let root = &self.opts.root;
-        let store = root.join("node_modules").join(STORE_DIR_NAME);
-        let store_ref = &store;
         let mut linked = 0;
-
-        let mut pending = self.pending_bin_link.lock().await;
-        while let Some(idx) = pending.pop() {
-            let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
-            linked += added;
+        for idx in graph.inner.node_indices() {
+            let bin_dir = self.modules_dir(graph, idx).join(".bin");
+            let mut deps = self
+                .dep_links(graph, idx)
+                .map(|(link, _)| link)
+                .collect::<Vec<_>>();
+            if deps.is_empty() && idx != graph.root {
+                continue;
+            }
+            super::remove_any(&bin_dir)?;
+            deps.sort();
+            for dep in deps {
+                linked += super::link_package_bins(&dep, &bin_dir)?;
+            }
         }
         Ok(linked)
     }
 
     pub fn package_dir(&self, graph: &Graph, idx: NodeIndex) -> (PathBuf, PathBuf) {
-        let pkg = &graph[idx].package;
         let dir = self
             .opts
             .root
@@ -499,33 +373,15 @@ impl IsolatedLinker {
             .join(STORE_DIR_NAME)
             .join(package_dir_name(graph, idx))
             .join("node_modules")
-            .join(pkg.name());
+            .join(graph[idx].name.to_string());
         (dir.clone(), dir)
     }
 
-    async fn link_deps(
-        &self,
-        graph: &Graph,
-        node: NodeIndex,
-        store_ref: &Path,
-        target_nm: &Path,
-    ) -> Result<(), NodeMaintainerError> {
+    async fn link_deps(&self, graph: &Graph, node: NodeIndex) -> Result<(), NodeMaintainerError> {
         // Then we symlink/junction all of the package's dependencies into its `node_modules` dir.
-        for edge in graph.inner.edges_directed(node, Direction::Outgoing) {
-            let dep_pkg = &graph[edge.target()].package;
-            let dep_store_dir = store_ref
-                .join(package_dir_name(graph, edge.target()))
-                .join("node_modules")
-                .join(dep_pkg.name());
-            let dep_nm_entry = target_nm.join(dep_pkg.name());
-            if dep_nm_entry.exists() {
-                continue;
-            }
-            let relative = pathdiff::diff_paths(
-                &dep_store_dir,
-                dep_nm_entry.parent().expect("must have a parent"),
-            )
-            .expect("this should never fail");
+        for (dep_nm_entry, dep_store_dir) in self.dep_links(graph, node) {
+            let relative =
+                relative_target(&dep_nm_entry, &dep_store_dir).expect("this should never fail");
             let mkdir_cache = self.mkdir_cache.clone();
             async_std::task::spawn_blocking(move || {
                 let path = dep_nm_entry.parent().expect("definitely has a parent");
@@ -557,88 +413,28 @@ impl IsolatedLinker {
         }
         Ok(())
     }
+}
 
-    async fn link_dep_bins(
-        &self,
-        graph: &Graph,
-        node: NodeIndex,
-        root_path: &Path,
-        store_ref: &Path,
-    ) -> Result<usize, NodeMaintainerError> {
-        if node == graph.root {
-            return Ok(0);
-        }
-        let mut linked = 0;
-        let node_path = store_ref
-            .join(package_dir_name(graph, node))
-            .join("node_modules")
-            .join(&graph[node].name.to_string());
-        let build_mani = BuildManifest::from_path(node_path.join("package.json")).map_err(|e| {
-            NodeMaintainerError::BuildManifestReadError(node_path.join("package.json"), e)
-        })?;
-        for edge in graph.inner.edges_directed(node, Direction::Incoming) {
-            let dep_node = &graph[edge.source()];
-            let dep_store_dir = if dep_node.idx == graph.root {
-                root_path.to_owned()
-            } else {
-                store_ref
-                    .join(package_dir_name(graph, edge.source()))
-                    .join("node_modules")
-                    .join(&dep_node.name.to_string())
-            };
-            let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
-            for (name, path) in &build_mani.bin {
-                let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
-                let name = name.clone();
-                let mkdir_cache = self.mkdir_cache.clone();
-                async_std::task::spawn_blocking(move || {
-                    // We only create a symlink if the target bin exists.
-                    if from.symlink_metadata().is_ok() {
-                        let parent = to.parent().expect("has a parent");
-                        super::mkdirp(parent, &mkdir_cache)?;
-                        if let Ok(meta) = to.symlink_metadata() {
-                            if meta.is_dir() {
-                                std::fs::remove_dir_all(&to).io_context(|| {
-                                    format!(
-                                        "Failed to rimraf existing bin directory at {}.",
-                                        to.display()
-                                    )
-                                })?;
-                            } else {
-                                std::fs::remove_file(&to).io_context(|| {
-                                    format!(
-                                    "Failed to rm existing file in bin directory location at {}.",
-                                    to.display()
-                                )
-                                })?;
-                            }
-                        }
-                        super::link_bin(&from, &to)?;
-                        tracing::trace!(
-                            "Linked bin for {} from {} to {}",
-                            name,
-                            from.display(),
-                            to.display()
-                        );
-                    }
-                    Ok::<_, NodeMaintainerError>(())
-                })
-                .await?;
-                linked += 1;
-            }
-        }
-        Ok(linked)
-    }
+/// What a link has to say to point to a directory.
+fn relative_target(link: &Path, target: &Path) -> Option<PathBuf> {
+    pathdiff::diff_paths(target, link.parent()?)
 }
 
 fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
-    let subdir = graph.node_path_string(idx);
+    let resolved = node.package.resolved();
+
+    // Every place in the tree has a directory of its own for every package
+    // that ends up there.
+    let mut id = graph.node_path_string(idx);
+    id.push_str(&format!("\n{resolved:?}\n{resolved}\n"));
+    if let Some(integrity) = resolved.integrity() {
+        id.push_str(&integrity.to_string());
+    }
 
     let mut name = node.name.to_string();
     name.push('@');
-    let (_, mut hex) = Integrity::from(subdir).to_hex();
+    let (_, mut hex) = Integrity::from(id).to_hex();
     hex.truncate(8);
     name.push_str(&hex);
     name
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..75699ec 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -5,6 +5,7 @@ use std::path::{Path, PathBuf};
 #[cfg(not(target_arch = "wasm32"))]
 use std::{
     collections::{HashMap, HashSet},
+    ffi::OsString,
     sync::Arc,
 };
 
@@ -24,7 +25,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -76,6 +77,7 @@ impl Linker {
         &self,
         #[allow(dead_code)] graph: &Graph,
     ) -> Result<usize, NodeMaintainerError> {
+        self.remove_meta()?;
         match self {
             #[cfg(not(target_arch = "wasm32"))]
             Self::Isolated(isolated) => isolated.prune(graph).await,
@@ -90,6 +92,7 @@ impl Linker {
         &self,
         #[allow(dead_code)] graph: &Graph,
     ) -> Result<usize, NodeMaintainerError> {
+        self.remove_meta()?;
         match self {
             #[cfg(not(target_arch = "wasm32"))]
             Self::Isolated(isolated) => isolated.extract(graph).await,
@@ -119,6 +122,42 @@ impl Linker {
             "Ran lifecycle scripts in {}ms.",
             start.elapsed().as_millis()
         );
+        self.write_meta(graph)
+    }
+
+    #[cfg(not(target_arch = "wasm32"))]
+    fn opts(&self) -> Option<&LinkerOptions> {
+        match self {
+            Self::Isolated(isolated) => Some(&isolated.opts),
+            Self::Hoisted(hoisted) => Some(&hoisted.opts),
+            Self::Null => None,
+        }
+    }
+
+    /// The meta file says what's in `node_modules/`, so that later runs can
+    /// rely on it: it's only there when nothing was left unfinished.
+    #[cfg(not(target_arch = "wasm32"))]
+    fn remove_meta(&self) -> Result<(), NodeMaintainerError> {
+        if let Some(opts) = self.opts() {
+            remove_any(&opts.root.join("node_modules").join(META_FILE_NAME))?;
+        }
+        Ok(())
+    }
+
+    #[cfg(not(target_arch = "wasm32"))]
+    fn write_meta(&self, graph: &Graph) -> Result<(), NodeMaintainerError> {
+        if let Some(opts) = self.opts() {
+            let node_modules = opts.root.join("node_modules");
+            if node_modules.exists() {
+                let meta = node_modules.join(META_FILE_NAME);
+                oro_common::write_atomic(&meta, graph.to_kdl()?.to_string()).io_context(|| {
+                    format!(
+                        "Failed to write Orogene meta file into node_modules, at {}.",
+                        meta.display()
+                    )
+                })?;
+            }
+        }
         Ok(())
     }
 
@@ -479,6 +518,99 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
     Ok(())
 }
 
+/// Links all the executables of a package into a directory, except for those
+/// whose names are already taken there.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn link_package_bins(
+    package_dir: &Path,
+    bin_dir: &Path,
+) -> Result<usize, NodeMaintainerError> {
+    let manifest = package_dir.join("package.json");
+    let build_mani = BuildManifest::from_path(&manifest)
+        .map_err(|e| NodeMaintainerError::BuildManifestReadError(manifest, e))?;
+    let mut linked = 0;
+    for (name, path) in &build_mani.bin {
+        let to = bin_dir.join(name);
+        let from = package_dir.join(path);
+        // We only create a symlink if the target bin exists.
+        if from.symlink_metadata().is_err() || to.symlink_metadata().is_ok() {
+            continue;
+        }
+        std::fs::create_dir_all(bin_dir).io_context(|| {
+            format!(
+                "Failed to create bin directory at {} while linking {name} bin.",
+                bin_dir.display()
+            )
+        })?;
+        link_bin(&from, &to)?;
+        linked += 1;
+        tracing::trace!(
+            "Linked bin for {name} from {} to {}",
+            from.display(),
+            to.display()
+        );
+    }
+    Ok(linked)
+}
+
+/// Names of everything in a directory.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn dir_entries(dir: &Path) -> Result<Vec<OsString>, NodeMaintainerError> {
+    std::fs::read_dir(dir)
+        .and_then(|entries| {
+            entries
+                .map(|entry| entry.map(|e| e.file_name()))
+                .collect::<std::io::Result<Vec<_>>>()
+        })
+        .io_context(|| format!("Failed to read contents of directory at {}.", dir.display()))
+}
+
+/// Whether there's a directory (and not a link to one) at a path.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn is_real_dir(path: &Path) -> bool {
+    path.symlink_metadata()
+        .map(|meta| meta.is_dir())
+        .unwrap_or(false)
+}
+
+/// Whether a path is that of a scope directory.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn is_scope(path: &Path) -> bool {
+    path.file_name()
+        .map(|name| name.to_string_lossy().starts_with('@'))
+        .unwrap_or(false)
+}
+
+/// Removes whatever is at a path (if anything).
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn remove_any(path: &Path) -> Result<(), NodeMaintainerError> {
+    let meta = match path.symlink_metadata() {
+        Ok(meta) => meta,
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(()),
+        Err(e) => {
+            return Err(e).io_context(|| format!("Failed to get metadata of {}.", path.display()))
+        }
+    };
+    if meta.is_dir() {
+        std::fs::remove_dir_all(path)
+    } else {
+        // Links to directories are removed like directories on Windows.
+        std::fs::remove_file(path).or_else(|e| std::fs::remove_dir(path).map_err(|_| e))
+    }
+    .io_context(|| format!("Failed to remove {}.", path.display()))
+}
+
+/// Removes a directory if there's nothing in it.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn remove_if_empty(dir: &Path) -> Result<bool, NodeMaintainerError> {
+    if !dir_entries(dir)?.is_empty() {
+        return Ok(false);
+    }
+    std::fs::remove_dir(dir)
+        .io_context(|| format!("Failed to remove empty directory {}.", dir.display()))?;
+    Ok(true)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn mkdirp(
     path: &Path,
@@ -491,12 +623,14 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
-                format!(
-                    "Failed to create directory {} while extracting.",
-                    path.display()
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .io_context(|| {
+                    format!(
+                        "Failed to create directory {} while extracting.",
+                        path.display()
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).io_context(|| {
diff --git a/crates/oro-common/src/lib.rs b/crates/oro-common/src/lib.rs
index 560be50..f14f6e7 100644
--- a/crates/oro-common/src/lib.rs
+++ b/crates/oro-common/src/lib.rs
@@ -5,7 +5,9 @@ pub use build_manifest::*;
 pub use manifest::Bin;
 pub use manifest::*;
 pub use packument::*;
+pub use write::*;
 
 mod build_manifest;
 mod manifest;
 mod packument;
+mod write;
diff --git a/crates/oro-common/src/write.rs b/crates/oro-common/src/write.rs
new file mode 100644
index 0000000..9c98316
--- /dev/null
+++ b/crates/oro-common/src/write.rs
@@ -0,0 +1,28 @@
+use std::io::Write;
+use std::path::{Path, PathBuf};
+
+/// Writes a file such that, whatever happens, what's at `path` is either what
+/// was there before, or all of the new contents.
+pub fn write_atomic(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> std::io::Result<()> {
+    let path = path.as_ref();
+    // Links stay links.
+    let path = std::fs::canonicalize(path).unwrap_or_else(|_| PathBuf::from(path));
+    let mut name = std::ffi::OsString::from(".");
+    name.push(path.file_name().unwrap_or_default());
+    name.push(".tmp");
+    let temp = path.with_file_name(name);
+    let write = || {
+        let mut file = std::fs::File::create(&temp)?;
+        if let Ok(meta) = path.metadata() {
+            file.set_permissions(meta.permissions())?;
+        }
+        file.write_all(contents.as_ref())?;
+        file.sync_all()?;
+        std::mem::drop(file);
+        std::fs::rename(&temp, &path)
+    };
+    write().map_err(|e| {
+        let _ = std::fs::remove_file(&temp);
+        e
+    })
+}
-- 
2.43.0


From 6e87bc925a3938e9f4a8022fc531570aa3e4f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 19/72] fix: scripts of packages that depend on each other
 don't wait forever

---
 crates/node-maintainer/src/linkers/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 75699ec..4c41bd4 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -195,15 +195,20 @@ impl Linker {
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // Whether a package has to run after another one. Packages that depend
+        // on each other don't wait for each other.
+        let runs_after = |idx: NodeIndex, dep: NodeIndex| {
+            idx != dep
+                && petgraph::algo::has_path_connecting(&graph.inner, idx, dep, None)
+                && !petgraph::algo::has_path_connecting(&graph.inner, dep, idx, None)
+        };
         // Map of package to the set of packages that need to run before it can run.
         let dependencies = pending
             .iter()
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
-                    if dep != idx
-                        && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
-                    {
+                    if runs_after(*idx, *dep) {
                         deps.insert(*dep);
                     }
                 }
@@ -217,9 +222,7 @@ impl Linker {
                 .map(|idx| {
                     let mut deps = HashSet::new();
                     for dep in &pending {
-                        if dep != idx
-                            && petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
-                        {
+                        if runs_after(*dep, *idx) {
                             deps.insert(*dep);
                         }
                     }
-- 
2.43.0


From 92bcc54682602aab8717cafc74a3d01f579754e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 20/72] fix: install scripts run for the project itself as well

---
 crates/node-maintainer/src/linkers/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 4c41bd4..94f4803 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -189,12 +189,16 @@ impl Linker {
             Self::Hoisted(hoisted) => (&hoisted.pending_rebuild, &hoisted.opts),
             Self::Null => return Ok(()),
         };
-        let pending = pending_rebuild
+        let mut pending = pending_rebuild
             .lock()
             .await
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // The project's own scripts run along with those of what's new in it.
+        if opts.root.join("package.json").exists() {
+            pending.push(graph.root);
+        }
         // Whether a package has to run after another one. Packages that depend
         // on each other don't wait for each other.
         let runs_after = |idx: NodeIndex, dep: NodeIndex| {
-- 
2.43.0


From 866f1da54138d6e8ad566b5e4a88bc33acf86d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 21/72] fix: interrupted commands don't leave half-written
 lockfiles or manifests

---
 crates/node-maintainer/src/maintainer.rs | 5 +----
 src/commands/add.rs                      | 3 +--
 src/commands/remove.rs                   | 3 +--
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index ad7f936..b72f160 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -2,8 +2,6 @@ use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
 
-#[cfg(not(target_arch = "wasm32"))]
-use async_std::fs;
 use nassun::client::{Nassun, NassunOpts};
 use nassun::package::Package;
 use oro_common::CorgiManifest;
@@ -505,8 +503,7 @@ impl NodeMaintainer {
     #[cfg(not(target_arch = "wasm32"))]
     pub async fn write_lockfile(&self, path: impl AsRef<Path>) -> Result<(), NodeMaintainerError> {
         let path = path.as_ref();
-        fs::write(path, self.graph.to_kdl()?.to_string())
-            .await
+        oro_common::write_atomic(path, self.graph.to_kdl()?.to_string())
             .io_context(|| format!("Failed to write lockfile to {}", path.display()))?;
         Ok(())
     }
diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..e5957d9 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -109,11 +109,10 @@ impl OroCommand for AddCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
+        oro_common::write_atomic(
             self.apply.root.join("package.json"),
             oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
         )
-        .await
         .into_diagnostic()?;
 
         tracing::info!(
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..6c2abfd 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -60,11 +60,10 @@ impl OroCommand for RemoveCmd {
         // Then, we apply the change.
         self.apply.execute(corgi).await?;
 
-        async_std::fs::write(
+        oro_common::write_atomic(
             self.apply.root.join("package.json"),
             oro_pretty_json::to_string_pretty(&manifest).into_diagnostic()?,
         )
-        .await
         .into_diagnostic()?;
 
         tracing::info!(
-- 
2.43.0


From e49f3cd0207d702e092626b22e5fc1de7f811735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 22/72] fix: registries with a path work without a trailing
 slash too

---
 crates/oro-client/src/client.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..7d4e016 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -63,7 +63,7 @@ impl OroClientBuilder {
     }
 
     pub fn registry(mut self, registry: Url) -> Self {
-        self.registry = registry;
+        self.registry = as_directory(registry);
         self
     }
 
@@ -203,6 +203,17 @@ impl OroClientBuilder {
     }
 }
 
+/// Registries live at "directories", whether their URL is written with a
+/// trailing slash or not. Without one, joining a path to the URL would replace
+/// its last segment.
+fn as_directory(mut registry: Url) -> Url {
+    if !registry.path().ends_with('/') {
+        let path = format!("{}/", registry.path());
+        registry.set_path(&path);
+    }
+    registry
+}
+
 #[derive(Clone, Debug)]
 pub struct OroClient {
     pub(crate) registry: Arc<Url>,
@@ -221,7 +232,7 @@ impl OroClient {
 
     pub fn with_registry(&self, registry: Url) -> Self {
         Self {
-            registry: Arc::new(registry),
+            registry: Arc::new(as_directory(registry)),
             client: self.client.clone(),
             client_uncached: self.client_uncached.clone(),
         }
-- 
2.43.0


From 4ae9a2822c6e0985c86c87d1c4a588154ff97448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 23/72] fix: credentials only go to the registry they belong to

---
 crates/oro-client/src/auth_middleware.rs | 25 ++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..e05203d 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -19,9 +19,10 @@ impl Middleware for AuthMiddleware {
         extensions: &mut Extensions,
         next: Next<'_>,
     ) -> Result<Response> {
+        // The header is only meant for us, so it doesn't go any further.
         let reg = Url::parse(
-            req.headers()
-                .get("X-Oro-Registry")
+            req.headers_mut()
+                .remove("X-Oro-Registry")
                 .expect(
                     "Request did not have an x-oro-registry header. This is a bug in oro-client.",
                 )
@@ -33,7 +34,7 @@ impl Middleware for AuthMiddleware {
         // Don't add auth headers to requests to URLs outside the given
         // registry.
         let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
+        if reg.origin() != req_url.origin() || !req_url.path().starts_with(&directory_path(&reg)) {
             return next.run(req, extensions).await;
         }
 
@@ -87,5 +88,21 @@ where
 }
 
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let host = url.host_str().unwrap_or("");
+    let path = directory_path(url);
+    if let Some(port) = url.port() {
+        format!("//{host}:{port}{path}")
+    } else {
+        format!("//{host}{path}")
+    }
+}
+
+/// The URL's path, with a trailing slash whether the URL has one or not.
+fn directory_path(url: &Url) -> String {
+    let path = url.path();
+    if path.ends_with('/') {
+        path.to_string()
+    } else {
+        format!("{path}/")
+    }
 }
-- 
2.43.0


From 21b104336a75b56c726003a932eee208fad59f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 24/72] fix: tarballs are requested with their own registry's
 credentials

---
 crates/nassun/src/fetch/npm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/npm.rs b/crates/nassun/src/fetch/npm.rs
index f51c7d3..ad5d6e1 100644
--- a/crates/nassun/src/fetch/npm.rs
+++ b/crates/nassun/src/fetch/npm.rs
@@ -156,7 +156,13 @@ impl PackageFetcher for NpmFetcher {
             PackageResolution::Npm { ref tarball, .. } => tarball,
             _ => panic!("How did a non-Npm resolution get here?"),
         };
-        Ok(self.client.stream_external(url).await?)
+        // The client decides whether the tarball is part of the registry the
+        // package comes from, so it needs to know which registry that is.
+        let client = match pkg.from().target() {
+            PackageSpec::Npm { scope, .. } => self.client.with_registry(self.pick_registry(scope)),
+            _ => self.client.clone(),
+        };
+        Ok(client.stream_external(url).await?)
     }
 }
 
-- 
2.43.0


From 6024068b45391846604a12112cb849b5e625869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 25/72] fix: logging in and out doesn't need an existing config
 file

---
 src/commands/login.rs  | 10 +++++++---
 src/commands/logout.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 8246e29..468fdea 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -73,9 +73,13 @@ impl OroCommand for LoginCmd {
                 .map(|config| config.config_dir().to_path_buf().join("oro.kdl"))
         }) {
             std::fs::create_dir_all(config_path.parent().expect("must have parent")).unwrap();
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                Ok(config) => config,
+                // There might just not be a config file yet.
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => String::new(),
+                Err(e) => return Err(e).into_diagnostic(),
+            }
+            .parse()?;
 
             tracing::info!("Logging in to {}", self.registry);
 
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index dfd63a3..b922b7a 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -33,9 +33,13 @@ impl OroCommand for LogoutCmd {
             let client = builder.registry(self.registry.clone()).build();
             std::fs::create_dir_all(config_path.parent().expect("must have parent"))
                 .into_diagnostic()?;
-            let mut config: KdlDocument = std::fs::read_to_string(config_path)
-                .into_diagnostic()?
-                .parse()?;
+            let mut config: KdlDocument = match std::fs::read_to_string(config_path) {
+                Ok(config) => config,
+                // There might just not be a config file yet.
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => String::new(),
+                Err(e) => return Err(e).into_diagnostic(),
+            }
+            .parse()?;
 
             if let Some(Credentials::Token(token)) =
                 config::get_credentials_by_uri(&self.registry, &config)
-- 
2.43.0


From 5d00d3964e215c0fe7dd36d7ef8379291a5ea353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 26/72] fix: interrupted commands don't leave half-written
 config files

---
 src/commands/login.rs  | 2 +-
 src/commands/logout.rs | 2 +-
 src/lib.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 468fdea..d5314ca 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -115,7 +115,7 @@ impl OroCommand for LoginCmd {
                 config::set_scoped_registry(&scope, &self.registry, &mut config);
             }
 
-            std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+            oro_common::write_atomic(config_path, config.to_string()).into_diagnostic()?;
         }
         Ok(())
     }
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index b922b7a..a15e703 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -48,7 +48,7 @@ impl OroCommand for LogoutCmd {
             }
 
             config::clear_crendentials_by_uri(&self.registry, &mut config);
-            std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+            oro_common::write_atomic(config_path, config.to_string()).into_diagnostic()?;
         }
         Ok(())
     }
diff --git a/src/lib.rs b/src/lib.rs
index 2344076..3ff89b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -578,7 +578,7 @@ impl Orogene {
                         opt.push(KdlValue::Bool(false));
                     }
                 }
-                std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+                oro_common::write_atomic(config_path, config.to_string()).into_diagnostic()?;
             }
         }
         Ok(())
-- 
2.43.0


From 667bf159dc54b8456134507528a65f737dfa1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 27/72] fix: requests are retried when using the cache, too

---
 crates/oro-client/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 7d4e016..0147e22 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -163,7 +163,6 @@ impl OroClientBuilder {
 
         #[allow(unused_mut)]
         let mut client_builder = reqwest_middleware::ClientBuilder::new(client_raw.clone())
-            .with(retry_strategy)
             .with(AuthMiddleware(credentials.clone()));
 
         #[cfg(not(target_arch = "wasm32"))]
@@ -177,6 +176,10 @@ impl OroClientBuilder {
             }));
         }
 
+        // Retries have to come after the cache: once an error has gone through
+        // it, it can't be recognized as a transient one anymore.
+        client_builder = client_builder.with(retry_strategy);
+
         let retry_policy = ExponentialBackoff::builder().build_with_max_retries(self.retries);
         let retry_strategy = RetryTransientMiddleware::new_with_policy(retry_policy);
 
-- 
2.43.0


From 06147d9200df98900cb503163599a8827186a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 28/72] fix: unusual answers while logging in are errors, not
 crashes

---
 crates/oro-client/src/api/login.rs | 41 ++++++++++++++++++++----------
 crates/oro-client/src/error.rs     |  6 +++++
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..eb18e3c 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -1,7 +1,7 @@
 use crate::notify::Notify;
 use crate::{OroClient, OroClientError};
 use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
-use reqwest::header::{HeaderMap, WWW_AUTHENTICATE};
+use reqwest::header::{HeaderMap, HeaderValue, WWW_AUTHENTICATE};
 use reqwest::StatusCode;
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
@@ -62,10 +62,19 @@ struct WebOTPResponse {
 }
 
 impl OroClient {
-    fn build_header(auth_type: AuthType, options: &LoginOptions) -> HeaderMap {
+    fn build_header(
+        auth_type: AuthType,
+        options: &LoginOptions,
+    ) -> Result<HeaderMap, OroClientError> {
         let mut headers = HashMap::new();
 
         if let Some(scope) = options.scope.clone() {
+            if HeaderValue::from_str(&scope).is_err() {
+                return Err(OroClientError::InvalidHeader {
+                    name: "npm-scope".into(),
+                    value: scope,
+                });
+            }
             headers.insert("npm-scope".to_owned(), scope);
         }
 
@@ -79,13 +88,13 @@ impl OroClient {
         headers.insert("npm-command".to_owned(), "login".to_owned());
         headers.insert("Content-Type".to_owned(), "application/json".to_owned());
 
-        (&headers)
+        Ok((&headers)
             .try_into()
-            .expect("This type conversion should work")
+            .expect("This type conversion should work"))
     }
 
     pub async fn login_web(&self, options: &LoginOptions) -> Result<LoginWeb, OroClientError> {
-        let headers = Self::build_header(AuthType::Web, options);
+        let headers = Self::build_header(AuthType::Web, options)?;
         let url = self.registry.join("-/v1/login")?;
         let text = self
             .client
@@ -110,7 +119,7 @@ impl OroClient {
         otp: Option<&str>,
         options: &LoginOptions,
     ) -> Result<LoginCouchResponse, OroClientError> {
-        let mut headers = Self::build_header(AuthType::Legacy, options);
+        let mut headers = Self::build_header(AuthType::Legacy, options)?;
         let username_ = utf8_percent_encode(username, NON_ALPHANUMERIC).to_string();
         let url = self
             .registry
@@ -119,7 +128,10 @@ impl OroClient {
         if let Some(otp) = otp {
             headers.insert(
                 "npm-otp",
-                otp.try_into().expect("This type conversion should work"),
+                HeaderValue::from_str(otp).map_err(|_| OroClientError::InvalidHeader {
+                    name: "npm-otp".into(),
+                    value: otp.into(),
+                })?,
             );
         }
 
@@ -150,7 +162,7 @@ impl OroClient {
                     .headers()
                     .get(WWW_AUTHENTICATE)
                     .map_or(String::default(), |header| {
-                        header.to_str().unwrap().to_lowercase()
+                        String::from_utf8_lossy(header.as_bytes()).to_lowercase()
                     });
 
                 let text = response.text().await?;
@@ -195,7 +207,7 @@ impl OroClient {
         &self,
         done_url: impl AsRef<str>,
     ) -> Result<DoneURLResponse, OroClientError> {
-        let headers = Self::build_header(AuthType::Web, &LoginOptions::default());
+        let headers = Self::build_header(AuthType::Web, &LoginOptions::default())?;
 
         let response = self
             .client_uncached
@@ -218,11 +230,12 @@ impl OroClient {
                 ))
             }
             StatusCode::ACCEPTED => {
-                if let Some(retry_after) = response.headers().get("retry-after") {
-                    let retry_after = retry_after.to_str()
-                        .expect("The \"retry-after\" header that's included in the response should be string.")
-                        .parse::<u64>()
-                        .expect("The \"retry-after\" header that's included in the response should be able to parse to number.");
+                let retry_after = response
+                    .headers()
+                    .get("retry-after")
+                    .and_then(|retry_after| retry_after.to_str().ok())
+                    .and_then(|retry_after| retry_after.parse::<u64>().ok());
+                if let Some(retry_after) = retry_after {
                     Ok(DoneURLResponse::Duration(Duration::from_secs(retry_after)))
                 } else {
                     Err(OroClientError::ResponseError(
diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 45373c0..400a2f7 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -79,6 +79,12 @@ pub enum OroClientError {
     #[diagnostic(code(oro_client::auth_string_missing_username), url(docsrs))]
     AuthStringMissingUsername(String),
 
+    /// A value that needs to be sent as part of a request has characters in
+    /// it that can't be sent.
+    #[error("`{value}` is not a valid value for the `{name}` header.")]
+    #[diagnostic(code(oro_client::invalid_header), url(docsrs))]
+    InvalidHeader { name: String, value: String },
+
     /// Failed to decode base64.
     #[error(transparent)]
     #[diagnostic(code(oro_client::base64_decode_error), url(docsrs))]
-- 
2.43.0


From 47f82f41cbfd0e4e949b1aad75bba2ccdcedbbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 29/72] fix: bad JSON with non-ASCII text is an error, not a
 crash

---
 crates/oro-client/src/error.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 400a2f7..0183de8 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -99,9 +99,15 @@ impl OroClientError {
         // translate the spans accordingly.
         let err_offset = SourceOffset::from_location(&json, err.line(), err.column());
         let json_len = json.len();
-        let local_offset = err_offset.offset().saturating_sub(40);
-        let local_len = std::cmp::min(40, json_len - err_offset.offset());
-        let snipped_json = json[local_offset..err_offset.offset() + local_len].to_string();
+        let mut local_offset = err_offset.offset().saturating_sub(40);
+        while !json.is_char_boundary(local_offset) {
+            local_offset -= 1;
+        }
+        let mut local_end = std::cmp::min(err_offset.offset() + 40, json_len);
+        while !json.is_char_boundary(local_end) {
+            local_end += 1;
+        }
+        let snipped_json = json[local_offset..local_end].to_string();
         Self::BadJson {
             source: err,
             url: url.clone(),
-- 
2.43.0


From f21617ff6b94d8cd4ac51af14b33eacd2ec8fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:59 +0000
Subject: [PATCH 30/72] fix: unindented JSON and JSON with CR line endings keep
 their layout

---
 crates/oro-pretty-json/src/lib.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/oro-pretty-json/src/lib.rs b/crates/oro-pretty-json/src/lib.rs
index 898d0e2..2147a2d 100644
--- a/crates/oro-pretty-json/src/lib.rs
+++ b/crates/oro-pretty-json/src/lib.rs
@@ -52,22 +52,18 @@ pub fn to_string_pretty(formatted: &Formatted) -> Result<String, Error> {
 }
 
 fn detect_indentation(json: &str) -> Option<(char, usize)> {
-    let mut lines = json.lines();
-    lines.next()?;
-    let second_line = lines.next()?;
-    let mut indent = 0;
-    let mut character = None;
-    let mut last_whitespace_char = None;
-    for c in second_line.chars() {
-        if is_json_whitespace(c) {
-            indent += 1;
-            last_whitespace_char = Some(c);
-        } else {
-            character = last_whitespace_char;
-            break;
-        }
+    let second_line = json
+        .trim_start()
+        .split(['\r', '\n'])
+        .skip(1)
+        .find(|line| !line.trim().is_empty())?;
+    let indent = second_line.find(|c: char| !is_json_whitespace(c))?;
+    match second_line[..indent].chars().last() {
+        Some(c) => Some((c, indent)),
+        // Nothing in there that could have been indented.
+        None if second_line.starts_with(['}', ']']) => None,
+        None => Some((' ', 0)),
     }
-    character.map(|c| (c, indent))
 }
 
 fn detect_line_end(json: &str) -> Option<(String, bool)> {
-- 
2.43.0


From 44767aa891a320dfbde873f48429caa20e6e4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 31/72] fix: paths with an @ in them are not aliases, and names
 don't start with dots

---
 crates/oro-package-spec/src/parsers/alias.rs | 17 +++++------------
 crates/oro-package-spec/src/parsers/npm.rs   |  4 ++--
 crates/oro-package-spec/src/parsers/util.rs  | 13 +++++++++++++
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index ba61508..a1c9f9f 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -9,14 +9,14 @@ use crate::error::SpecParseError;
 use crate::parsers::{git, npm, path, util};
 use crate::PackageSpec;
 
-// alias_spec := [ [ '@' ], not('/')+ '/' ] not('@/')+ '@' prefixed-package-arg
+// alias_spec := [ '@', not('/')+ '/' ] not('@/')+ '@' prefixed-package-arg
 pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError<&str>> {
     context(
         "alias",
         map(
             tuple((
                 opt(scope),
-                map_res(take_till1(|c| c == '@' || c == '/'), util::no_url_encode),
+                map_res(take_till1(|c| c == '@' || c == '/'), util::package_name),
                 tag("@"),
                 prefixed_package_spec,
             )),
@@ -54,18 +54,11 @@ fn scope(input: &str) -> IResult<&str, String, SpecParseError<&str>> {
         "scope",
         map(
             tuple((
-                opt(tag("@")),
-                map_res(take_till1(|c| c == '/'), util::no_url_encode),
+                tag("@"),
+                map_res(take_till1(|c| c == '/'), util::package_name),
                 tag("/"),
             )),
-            |(at, scope, _)| {
-                let mut out = String::new();
-                if let Some(at) = at {
-                    out.push_str(at);
-                }
-                out.push_str(scope);
-                out
-            },
+            |(at, scope, _)| format!("{at}{scope}"),
         ),
     )(input)
 }
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index f013beb..383c290 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -20,10 +20,10 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
             tuple((
                 opt(delimited(
                     char('@'),
-                    map_res(take_till1(|c| c == '/'), util::no_url_encode),
+                    map_res(take_till1(|c| c == '/'), util::package_name),
                     char('/'),
                 )),
-                map_res(take_till1(|x| x == '@' || x == '/'), util::no_url_encode),
+                map_res(take_till1(|x| x == '@' || x == '/'), util::package_name),
                 opt(preceded(tag("@"), cut(version_req))),
             )),
             |(scope_opt, name, req)| {
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index d75374a..4fbeae5 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -15,6 +15,19 @@ const JS_ENCODED: &AsciiSet = {
         .remove(b')')
 };
 
+/// A package's name, or the scope or the name part of a scoped one. These are
+/// used as names of directories, too, so they can't start with a dot.
+pub(crate) fn package_name(name: &str) -> Result<&str, SpecParseError<&str>> {
+    if name.starts_with('.') {
+        return Err(SpecParseError {
+            input: name,
+            context: None,
+            kind: Some(SpecErrorKind::InvalidCharacters(name.into())),
+        });
+    }
+    no_url_encode(name)
+}
+
 pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
     if format!("{}", utf8_percent_encode(tag, JS_ENCODED)) == tag {
         Ok(tag)
-- 
2.43.0


From 55565adf75fdf1f4d621ad5d05ff06023e95ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 32/72] fix: only the .git at the end is not part of a
 repository's name

---
 crates/oro-package-spec/src/parsers/git.rs | 23 +++++++---------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index f98f659..3a27a25 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -30,7 +30,7 @@ fn git_shorthand(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         GitInfo::Hosted {
             host: maybe_host.unwrap_or(GitHost::GitHub),
             owner: owner.into(),
-            repo: repo.into(),
+            repo: without_git_suffix(repo),
             committish: committish.map(String::from),
             semver,
             requested: None,
@@ -74,6 +74,10 @@ fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
     Ok((input, range))
 }
 
+fn without_git_suffix(repo: &str) -> String {
+    repo.strip_suffix(".git").unwrap_or(repo).into()
+}
+
 fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, url) = preceded(
         alt((tag("git+"), peek(tag("git://")))),
@@ -101,11 +105,7 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo.clone()
-                        },
+                        repo: without_git_suffix(repo),
                         committish,
                         semver,
                         requested: Some(url.to_string()),
@@ -159,11 +159,6 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                 .map(String::from)
                 .collect::<Vec<String>>();
             if let [owner, repo] = &path[..] {
-                let repo = if repo.ends_with(".git") {
-                    String::from(&repo[..].replace(".git", ""))
-                } else {
-                    repo.clone()
-                };
                 Ok((
                     input,
                     GitInfo::Hosted {
@@ -175,11 +170,7 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo
-                        },
+                        repo: without_git_suffix(repo),
                         committish,
                         semver,
                         requested: Some(raw),
-- 
2.43.0


From eca5c23ca4eff907a6242b1acdc6de80f2e37f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 33/72] fix: paths are not taken for GitHub repositories

---
 crates/oro-package-spec/src/parsers/git.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 3a27a25..eeca0de 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -1,7 +1,7 @@
 use node_semver::Range;
 use nom::branch::alt;
-use nom::bytes::complete::{tag_no_case as tag, take_till1, take_while};
-use nom::combinator::{cut, map, map_res, opt, peek, rest};
+use nom::bytes::complete::{tag_no_case as tag, take_till1, take_while1};
+use nom::combinator::{cut, map, map_res, not, opt, peek, rest, verify};
 use nom::error::context;
 use nom::sequence::{preceded, terminated};
 use nom::IResult;
@@ -19,11 +19,25 @@ pub(crate) fn git_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
     )(input)
 }
 
-/// `git-shorthand := [ hosted-git-prefix ] not('/')+ '/' repo`
+/// `git-shorthand := [ hosted-git-prefix ] not('/')+ '/' not('/' | '@' | ':' | '\\' | whitespace)+`
 fn git_shorthand(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, maybe_host) = opt(hosted_git_prefix)(input)?;
+    // Without a prefix, `~/foo` is a path.
+    let (input, _) = not(tag("~/"))(input)?;
     let (input, owner) = map_res(take_till1(|c| c == '/'), util::no_url_encode)(input)?;
-    let (input, repo) = preceded(tag("/"), take_while(|c| c != '#'))(input)?;
+    // Only GitLab has subgroups. Anywhere else, this isn't a repository.
+    let is_repo_char = |c: char| {
+        c != '#'
+            && !matches!(c, '@' | ':' | '\\')
+            && !c.is_whitespace()
+            && (c != '/' || maybe_host == Some(GitHost::GitLab))
+    };
+    let (input, repo) = preceded(
+        tag("/"),
+        verify(take_while1(is_repo_char), |repo: &str| {
+            !repo.ends_with('/') && repo != ".git"
+        }),
+    )(input)?;
     let (input, (committish, semver)) = committish(input)?;
     Ok((
         input,
-- 
2.43.0


From ecefa3c6650b0cc0795750def968133385a99a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 34/72] fix: address of GitHub's archives

---
 crates/oro-package-spec/src/gitinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 9746d40..781e934 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -151,7 +151,7 @@ impl GitInfo {
             } => committish
                 .as_ref()
                 .map(|commit| match host {
-                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tag.gz/{commit}"),
+                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tar.gz/{commit}"),
                     Gist => format!("https://codeload.github.com/gist/{repo}/tar.gz/{commit}"),
                     GitLab => format!(
                         "https://gitlab.com/{owner}/{repo}/repository/archive.tar.gz?ref={commit}"
-- 
2.43.0


From e97e3a4ce5bcb08c9a58b388b3f8034b97950f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 35/72] fix: ssh addresses of repositories survive printing,
 and addresses without a path don't crash

---
 crates/oro-package-spec/src/gitinfo.rs     | 5 ++++-
 crates/oro-package-spec/src/parsers/git.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 781e934..6654b2a 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -205,7 +205,10 @@ impl fmt::Display for GitInfo {
                 semver,
             } => {
                 if let Some(requested) = requested {
-                    if !requested.starts_with("git://") {
+                    if !requested.contains("://") {
+                        // scp-like: user@host:owner/repo
+                        write!(f, "git+ssh://")?;
+                    } else if !requested.starts_with("git://") {
                         write!(f, "git+")?;
                     }
                     write!(f, "{requested}")?;
diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index eeca0de..799b4ca 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -94,7 +94,7 @@ fn without_git_suffix(repo: &str) -> String {
 
 fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, url) = preceded(
-        alt((tag("git+"), peek(tag("git://")))),
+        alt((tag("git+"), peek(tag("git://")), peek(tag("ssh://")))),
         map_res(take_till1(|c| c == '#'), Url::parse),
     )(input)?;
     let (input, (committish, semver)) = committish(input)?;
@@ -103,7 +103,9 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         | Some(host @ "gitlab.com")
         | Some(host @ "gist.github.com")
         | Some(host @ "bitbucket.org") => {
-            let path = (url.path()[1..])
+            let path = url
+                .path()
+                .trim_start_matches('/')
                 .split('/')
                 .map(String::from)
                 .collect::<Vec<String>>();
-- 
2.43.0


From badceb4ee60ea7cbd20146d318421292828decba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 36/72] fix: ranges with operators in front of wildcards, like
 ~*, don't crash

---
 crates/oro-package-spec/src/parsers/git.rs  |  2 +-
 crates/oro-package-spec/src/parsers/npm.rs  |  4 +-
 crates/oro-package-spec/src/parsers/util.rs | 44 +++++++++++++++++++++
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 799b4ca..0ef624a 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -84,7 +84,7 @@ fn committish(input: &str) -> IResult<&str, (Option<String>, Option<Range>), Spe
 }
 
 fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
-    let (input, range) = map_res(take_till1(|_| false), Range::parse)(input)?;
+    let (input, range) = map_res(take_till1(|_| false), util::semver_range)(input)?;
     Ok((input, range))
 }
 
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 383c290..2fc1188 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -1,4 +1,4 @@
-use node_semver::{Range as SemVerRange, Version as SemVerVersion};
+use node_semver::Version as SemVerVersion;
 
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
@@ -55,7 +55,7 @@ fn semver_version(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str
 }
 
 fn semver_range(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
-    let (input, range) = map_res(take_till1(|_| false), SemVerRange::parse)(input)?;
+    let (input, range) = map_res(take_till1(|_| false), util::semver_range)(input)?;
     Ok((input, VersionSpec::Range(range)))
 }
 
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index 4fbeae5..4efd021 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -1,3 +1,4 @@
+use node_semver::{Range, SemverError};
 use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 
 use crate::error::{SpecErrorKind, SpecParseError};
@@ -39,3 +40,46 @@ pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
         })
     }
 }
+
+/// Parses a version range.
+pub(crate) fn semver_range(input: &str) -> Result<Range, SemverError> {
+    Range::parse(without_redundant_operators(input))
+}
+
+/// node-semver can't handle `~`, `^` or `=` in front of some wildcards, as in
+/// `~*` or `=1.x.0`. They make no difference there, so they can be left out.
+fn without_redundant_operators(range: &str) -> String {
+    let mut out = String::with_capacity(range.len());
+    let mut rest = range;
+    while let Some(c) = rest.chars().next() {
+        let at_start = out.is_empty() || out.ends_with([' ', '\t']) || out.ends_with("||");
+        if at_start && matches!(c, '~' | '^' | '=') {
+            let mut version = rest[1..].trim_start_matches([' ', '\t']);
+            if c == '~' {
+                version = version.strip_prefix('>').unwrap_or(version);
+            }
+            version = version.trim_start_matches([' ', '\t']);
+            if has_wildcard(version) {
+                rest = version;
+                continue;
+            }
+        }
+        out.push(c);
+        rest = &rest[c.len_utf8()..];
+    }
+    out
+}
+
+/// Whether the major or minor version that `input` starts with is a wildcard.
+fn has_wildcard(input: &str) -> bool {
+    let version = input
+        .strip_prefix('v')
+        .unwrap_or(input)
+        .trim_start_matches([' ', '\t']);
+    let after_major = version.trim_start_matches(|c: char| c.is_ascii_digit());
+    version.starts_with(['x', 'X', '*'])
+        || (after_major.len() < version.len()
+            && [".x", ".X", ".*"]
+                .iter()
+                .any(|minor| after_major.starts_with(minor)))
+}
-- 
2.43.0


From 8386998278fb872acd235dc92509807755f08a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 37/72] fix: tags don't start with a dot, as in npm:foo@.bar

---
 crates/oro-package-spec/src/parsers/npm.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 2fc1188..33485be 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -3,7 +3,7 @@ use node_semver::Version as SemVerVersion;
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
 use nom::character::complete::char;
-use nom::combinator::{cut, map, map_res, opt};
+use nom::combinator::{cut, map, map_res, opt, verify};
 use nom::error::context;
 use nom::sequence::{delimited, preceded, tuple};
 use nom::IResult;
@@ -62,8 +62,13 @@ fn semver_range(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>>
 fn version_tag(input: &str) -> IResult<&str, VersionSpec, SpecParseError<&str>> {
     context(
         "dist tag",
-        map(map_res(take_till1(|_| false), util::no_url_encode), |t| {
-            VersionSpec::Tag(t.into())
-        }),
+        map(
+            map_res(
+                // With a dot, it'd be a path.
+                verify(take_till1(|_| false), |t: &str| !t.starts_with('.')),
+                util::no_url_encode,
+            ),
+            |t| VersionSpec::Tag(t.into()),
+        ),
     )(input)
 }
-- 
2.43.0


From 267c827cda34cf7c36aa111f6e78fe6b8bd240cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 38/72] fix: repositories whose names end with .git survive
 printing

---
 crates/oro-package-spec/src/gitinfo.rs     | 4 ++++
 crates/oro-package-spec/src/parsers/git.rs | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 6654b2a..80c5a7b 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -214,6 +214,10 @@ impl fmt::Display for GitInfo {
                     write!(f, "{requested}")?;
                 } else {
                     write!(f, "{host}:{owner}/{repo}")?;
+                    if repo.ends_with(".git") {
+                        // Only the last one isn't part of the name.
+                        write!(f, ".git")?;
+                    }
                 }
 
                 if let Some(comm) = committish {
diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 0ef624a..39bc71d 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -35,7 +35,8 @@ fn git_shorthand(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
     let (input, repo) = preceded(
         tag("/"),
         verify(take_while1(is_repo_char), |repo: &str| {
-            !repo.ends_with('/') && repo != ".git"
+            let repo = repo.strip_suffix(".git").unwrap_or(repo);
+            !repo.is_empty() && !repo.ends_with('/')
         }),
     )(input)?;
     let (input, (committish, semver)) = committish(input)?;
-- 
2.43.0


From 0bfd50c1419afac6e7a9f6d07b00bb14362a1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 39/72] fix: malformed --auth values don't crash

---
 src/lib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ff89b6..1a07c3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,21 +822,17 @@ where
     V: std::str::FromStr,
     V::Err: std::error::Error + Send + Sync + 'static,
 {
-    let open_pos = s.find('{').ok_or_else(|| {
+    let (_, rest) = s.split_once('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
+    let (top_key, rest) = rest.split_once('}').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
     })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
+    let (nested_key, value) = rest.split_once('=').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
     })?;
 
-    Ok((
-        s[open_pos + 1..close_pos].parse()?,
-        s[close_pos + 1..eq_pos].parse()?,
-        s[eq_pos + 1..].parse()?,
-    ))
+    Ok((top_key.parse()?, nested_key.parse()?, value.parse()?))
 }
 
 #[derive(Debug, Subcommand)]
-- 
2.43.0


From d30cec832d7a37bd489d250737945fe0806c7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 40/72] fix: the user's configuration file takes precedence
 over the environment

---
 crates/oro-config/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index a23439c..7ed58c9 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -163,15 +163,15 @@ impl OroConfigOptions {
 
     pub fn load(self) -> Result<OroConfig> {
         let mut builder = self.builder;
+        if self.env {
+            builder = builder.add_source(Environment::with_prefix("oro_config"));
+        }
         if self.global {
             if let Some(config_file) = self.global_config_file {
                 let path = config_file.display().to_string();
                 builder = builder.add_source(File::new(&path, KdlFormat).required(false));
             }
         }
-        if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
-        }
         if let Some(root) = self.pkg_root {
             builder = builder.add_source(
                 File::new(&root.join("oro.kdl").display().to_string(), KdlFormat).required(false),
-- 
2.43.0


From 2931ad86a0cf165ced6f77ce3c596b6c9a640bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 41/72] fix: environment variables can set options with dashes
 in their names, and needn't be Unicode

---
 crates/oro-config/src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 7ed58c9..7943ee3 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -4,7 +4,7 @@ use std::{collections::HashSet, ffi::OsString, path::PathBuf};
 
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
-use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
+use config::{builder::DefaultState, ConfigBuilder, Environment, File, Map, ValueKind};
 use kdl_source::KdlFormat;
 use miette::Result;
 
@@ -110,6 +110,21 @@ impl OroConfigLayerExt for Command {
     }
 }
 
+const ENV_PREFIX: &str = "oro_config";
+
+/// Environment variables for options. Names of options contain dashes, but
+/// names of variables usually can't.
+fn env_vars() -> Map<String, String> {
+    std::env::vars_os()
+        .filter_map(|(name, value)| {
+            let name = name.into_string().ok()?.to_lowercase();
+            let option = name.strip_prefix(ENV_PREFIX)?.strip_prefix('_')?;
+            let name = format!("{ENV_PREFIX}_{}", option.replace('_', "-"));
+            Some((name, value.into_string().ok()?))
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone)]
 pub struct OroConfigOptions {
     builder: ConfigBuilder<DefaultState>,
@@ -164,7 +179,8 @@ impl OroConfigOptions {
     pub fn load(self) -> Result<OroConfig> {
         let mut builder = self.builder;
         if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
+            builder =
+                builder.add_source(Environment::with_prefix(ENV_PREFIX).source(Some(env_vars())));
         }
         if self.global {
             if let Some(config_file) = self.global_config_file {
-- 
2.43.0


From cf8d366b50db7fdefaa6c7751e702373f973fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 42/72] fix: configured options are passed on by what they are,
 not by what their values look like, and never override the command line

---
 crates/oro-config/src/lib.rs | 123 ++++++++++++++++++++++-------------
 src/lib.rs                   |  34 ++++------
 2 files changed, 89 insertions(+), 68 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 7943ee3..4d03e87 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,10 +1,11 @@
 //! Configuration loader for Orogene config files.
 
-use std::{collections::HashSet, ffi::OsString, path::PathBuf};
+use std::{collections::BTreeMap, ffi::OsString, path::PathBuf};
 
+use clap::{parser::ValueSource, ArgAction};
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
-use config::{builder::DefaultState, ConfigBuilder, Environment, File, Map, ValueKind};
+use config::{builder::DefaultState, ConfigBuilder, Environment, File, Map, Value, ValueKind};
 use kdl_source::KdlFormat;
 use miette::Result;
 
@@ -15,7 +16,15 @@ mod kdl_source;
 
 pub trait OroConfigLayerExt {
     fn with_negations(self) -> Self;
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()>;
+    /// Adds arguments for those options of this command that are configured,
+    /// unless they were already given on the command line, whose `matches`
+    /// these are.
+    fn layered_args(
+        &self,
+        matches: &ArgMatches,
+        args: &mut Vec<OsString>,
+        config: &OroConfig,
+    ) -> Result<()>;
 }
 
 impl OroConfigLayerExt for Command {
@@ -23,7 +32,7 @@ impl OroConfigLayerExt for Command {
         let negated = self
             .get_arguments()
             .filter(|opt| opt.get_long().is_some())
-            .map(|opt| format!("no-{}", opt.get_long().expect("long option")))
+            .map(|opt| negation_id(opt.get_long().expect("long option")))
             .collect::<Vec<_>>();
         let negations = self
             .get_arguments()
@@ -51,61 +60,78 @@ impl OroConfigLayerExt for Command {
         self.args(negations)
     }
 
-    fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()> {
-        let mut long_opts = HashSet::new();
+    fn layered_args(
+        &self,
+        matches: &ArgMatches,
+        args: &mut Vec<OsString>,
+        config: &OroConfig,
+    ) -> Result<()> {
+        let from_command_line = |id: &str| {
+            // Arguments of other (sub)commands aren't known here.
+            matches.try_contains_id(id).is_ok()
+                && matches.value_source(id) == Some(ValueSource::CommandLine)
+        };
+        let mut layered = Vec::new();
         for opt in self.get_arguments() {
-            if opt.get_long().is_some() {
-                long_opts.insert(opt.get_id().to_string());
-            }
-        }
-        let matches = self
-            .clone()
-            .ignore_errors(true)
-            .get_matches_from(&args.clone());
-        for opt in long_opts {
+            let Some(long) = opt.get_long() else {
+                continue;
+            };
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
             // the command line.
-            if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
-                let opt = opt.replace('_', "-");
-                if !args.contains(&OsString::from(format!("--no-{opt}"))) {
-                    if let Ok(bool) = config.get_bool(&opt) {
-                        if bool {
-                            args.push(OsString::from(format!("--{}", opt)));
-                        } else {
-                            args.push(OsString::from(format!("--no-{}", opt)));
-                        }
-                    } else if let Ok(value) = config.get_string(&opt) {
-                        args.push(OsString::from(format!("--{}", opt)));
-                        args.push(OsString::from(value));
-                    } else if let Ok(value) = config.get_table(&opt) {
-                        for (key, val) in value {
-                            match &val.kind {
-                                ValueKind::Table(map) => {
-                                    for (k, v) in map {
-                                        args.push(OsString::from(format!("--{}", opt)));
-                                        args.push(OsString::from(format!("{{{key}}}{k}={v}")));
-                                    }
-                                }
-                                // TODO: error if val.kind is an Array
-                                _ => {
-                                    args.push(OsString::from(format!("--{}", opt)));
-                                    args.push(OsString::from(format!("{key}={val}")));
+            if from_command_line(opt.get_id().as_str()) || from_command_line(&negation_id(long)) {
+                continue;
+            }
+            let key = opt.get_id().as_str().replace('_', "-");
+            let Ok(value) = config.get::<Value>(&key) else {
+                continue;
+            };
+            if matches!(opt.get_action(), ArgAction::SetTrue | ArgAction::SetFalse) {
+                layered.push(match config.get_bool(&key) {
+                    Ok(true) => format!("--{key}"),
+                    Ok(false) => format!("--no-{key}"),
+                    // This is for clap to complain about.
+                    Err(_) => format!("--{key}={value}"),
+                });
+                continue;
+            }
+            // Joined with its option, a value can be anything, even something
+            // that would otherwise be taken for another option.
+            match value.kind {
+                ValueKind::Nil => {}
+                ValueKind::Boolean(false) => layered.push(format!("--no-{key}")),
+                ValueKind::Table(table) => {
+                    let table: BTreeMap<_, _> = table.into_iter().collect();
+                    for (key, val) in table {
+                        match val.kind {
+                            ValueKind::Table(map) => {
+                                let map: BTreeMap<_, _> = map.into_iter().collect();
+                                for (k, v) in map {
+                                    layered.push(format!("--{long}={{{key}}}{k}={v}"));
                                 }
                             }
+                            // TODO: error if val.kind is an Array
+                            _ => layered.push(format!("--{long}={key}={val}")),
                         }
-                    } else if let Ok(value) = config.get_array(&opt) {
-                        for val in value {
-                            if let Ok(val) = val.into_string() {
-                                args.push(OsString::from(format!("--{}", opt)));
-                                args.push(OsString::from(val));
-                            }
+                    }
+                }
+                ValueKind::Array(array) => {
+                    for val in array {
+                        if let Ok(val) = val.into_string() {
+                            layered.push(format!("--{long}={val}"));
                         }
                     }
                 }
+                _ => layered.push(format!("--{long}={value}")),
             }
         }
+        // Anything after a `--` isn't an option.
+        let end = args
+            .iter()
+            .position(|arg| arg == "--")
+            .unwrap_or(args.len());
+        args.splice(end..end, layered.into_iter().map(OsString::from));
         Ok(())
     }
 }
@@ -125,6 +151,11 @@ fn env_vars() -> Map<String, String> {
         .collect()
 }
 
+/// Id of the argument that negates the one with the given long flag.
+fn negation_id(long: &str) -> String {
+    format!("no-{long}")
+}
+
 #[derive(Debug, Clone)]
 pub struct OroConfigOptions {
     builder: ConfigBuilder<DefaultState>,
diff --git a/src/lib.rs b/src/lib.rs
index 1a07c3c..f9922fa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,7 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -481,30 +481,20 @@ impl Orogene {
 
     fn layer_command_args(
         command: &Command,
+        matches: &ArgMatches,
         args: &mut Vec<OsString>,
         config: &OroConfig,
     ) -> Result<()> {
-        // First, we do a fake parse. All we really want is to get the subcommand, here.
-        let matches = command.clone().ignore_errors(true).get_matches();
-        let mut matches_ref = &matches;
-
-        // Next, we "recursively" follow the subcommand chain until we bottom
-        // out, then keep that path.
-        let mut subcmd_path = VecDeque::new();
-        while let Some((sub_cmd, new_m)) = matches_ref.subcommand() {
-            subcmd_path.push_back(sub_cmd);
-            matches_ref = new_m;
-        }
-
-        // Then, we find the subcommand starting from our toplevel Command.
-        let mut command = command.clone();
-        let mut subcmd = &mut command;
-        subcmd.layered_args(args, config)?;
-        while let Some(name) = subcmd_path.pop_front() {
-            subcmd = subcmd
-                .find_subcommand_mut(name)
+        let mut command = command;
+        let mut matches = matches;
+        command.layered_args(matches, args, config)?;
+        // "Recursively" follow the subcommand chain until we bottom out.
+        while let Some((name, sub_matches)) = matches.subcommand() {
+            command = command
+                .find_subcommand(name)
                 .expect("This should definitely exist?");
-            subcmd.layered_args(args, config)?;
+            matches = sub_matches;
+            command.layered_args(matches, args, config)?;
         }
         Ok(())
     }
@@ -690,7 +680,7 @@ impl Orogene {
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
         let config = oro.build_config()?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
-        Self::layer_command_args(&command, &mut args, &config)?;
+        Self::layer_command_args(&command, &matches, &mut args, &config)?;
         let mut oro =
             Orogene::from_arg_matches(&command.get_matches_from(&args)).into_diagnostic()?;
         let log_file = oro
-- 
2.43.0


From 4471b4830165685768674be9aeffaeb9a8bff345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 43/72] fix: a project's configuration file is used in its
 subdirectories, too

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f9922fa..9902bc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,10 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{
+    parser::ValueSource, ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser,
+    Subcommand,
+};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -425,7 +428,7 @@ impl Orogene {
         }
     }
 
-    fn build_config(&self) -> Result<OroConfig> {
+    fn build_config(&self, matches: &ArgMatches) -> Result<OroConfig> {
         let dirs = ProjectDirs::from("", "", "orogene");
         let cwd = std::env::current_dir().into_diagnostic()?;
         let root = if let Some(root) = pkg_root(&cwd) {
@@ -446,7 +449,13 @@ impl Orogene {
         } else {
             cfg_builder
                 .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")))
-                .pkg_root(Some(self.root.clone()))
+                .pkg_root(Some(
+                    if matches.value_source("root") == Some(ValueSource::CommandLine) {
+                        self.root.clone()
+                    } else {
+                        root.to_owned()
+                    },
+                ))
                 .load()?
         };
 
@@ -678,7 +687,7 @@ impl Orogene {
         let command = Self::current_command();
         let matches = command.clone().get_matches();
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
-        let config = oro.build_config()?;
+        let config = oro.build_config(&matches)?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &matches, &mut args, &config)?;
         let mut oro =
-- 
2.43.0


From 8155e3206b2a0bebafba9484c0de13aca5a1a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 44/72] fix: an unusable cache directory is an error, not a
 crash

---
 src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9902bc5..22592ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -104,7 +104,7 @@ use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
 use kdl::{KdlDocument, KdlNode, KdlValue};
-use miette::{IntoDiagnostic, Result};
+use miette::{Context, IntoDiagnostic, Result};
 use oro_config::{OroConfig, OroConfigLayerExt, OroConfigOptions};
 use tracing_appender::non_blocking::WorkerGuard;
 use tracing_indicatif::IndicatifLayer;
@@ -357,10 +357,15 @@ impl Orogene {
             let logs_dir = log_file.parent().expect("must have parent");
             clean_old_logs(logs_dir)?;
 
-            let file_appender = tracing_appender::rolling::never(
-                logs_dir,
-                log_file.file_name().expect("must have file name"),
-            );
+            std::fs::create_dir_all(logs_dir)
+                .into_diagnostic()
+                .wrap_err_with(|| format!("Failed to create {}.", logs_dir.display()))?;
+            let file_appender = std::fs::OpenOptions::new()
+                .append(true)
+                .create(true)
+                .open(log_file)
+                .into_diagnostic()
+                .wrap_err_with(|| format!("Failed to open {}.", log_file.display()))?;
             let (non_blocking, guard) = tracing_appender::non_blocking(file_appender);
 
             if self.quiet || !self.progress {
-- 
2.43.0


From 7985c117db192250958aec3a007b72ec6466fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 45/72] fix: processes cleaning up old logs at the same time
 don't fail

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 22592ef..4eed64c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -355,7 +355,7 @@ impl Orogene {
                 .with_default(LevelFilter::TRACE);
 
             let logs_dir = log_file.parent().expect("must have parent");
-            clean_old_logs(logs_dir)?;
+            clean_old_logs(logs_dir);
 
             std::fs::create_dir_all(logs_dir)
                 .into_diagnostic()
@@ -774,16 +774,17 @@ fn log_file_name() -> PathBuf {
     PathBuf::from(format!("{}-0.log", prefix))
 }
 
-fn clean_old_logs(logs_dir: &Path) -> Result<()> {
+fn clean_old_logs(logs_dir: &Path) {
     if let Ok(readdir) = logs_dir.read_dir() {
         let mut logs = readdir.filter_map(|e| e.ok()).collect::<Vec<_>>();
         logs.sort_by_key(|e| e.file_name());
         while logs.len() >= MAX_RETAINED_LOGS {
             let log = logs.remove(0);
-            std::fs::remove_file(log.path()).into_diagnostic()?;
+            // Another process may be cleaning up the same logs, and old logs
+            // aren't worth failing a command over, anyway.
+            let _ = std::fs::remove_file(log.path());
         }
     }
-    Ok(())
 }
 
 fn log_command_line() {
-- 
2.43.0


From c71f90ae14e049f3becc4e743e91ce66949e2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 46/72] fix: stored credentials are read back as what they are

---
 crates/oro-npm-account/src/config.rs | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..6b1f536 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -113,21 +113,18 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let username = credentials.get("username");
             let password = credentials.get("password");
 
-            match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
-                (.., Some(username), Some(password)) => {
-                    let username = username.as_string()?;
-                    let password = password.as_string()?;
-                    let password = general_purpose::STANDARD.decode(password).ok()?;
-                    let password = String::from_utf8_lossy(&password).to_string();
-
-                    Some(Credentials::LegacyAuth(
-                        general_purpose::STANDARD.encode(format!("{username}:{password}")),
-                    ))
-                }
-                (Some(legacy_auth), ..) => {
+            match (token, legacy_auth, username) {
+                (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
+                (_, Some(legacy_auth), _) => {
                     Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
                 }
+                (.., Some(username)) => Some(Credentials::BasicAuth {
+                    username: username.as_string()?.into(),
+                    password: match password {
+                        Some(password) => Some(password.as_string()?.into()),
+                        None => None,
+                    },
+                }),
                 _ => None,
             }
         })
@@ -176,7 +173,11 @@ impl TryFrom<Credentials> for HeaderValue {
                 Ok(HeaderValue::from_str(&format!("Bearer {auth_token}"))?)
             }
             Credentials::LegacyAuth(auth) => Ok(HeaderValue::from_str(&format!("Basic {auth}"))?),
-            _ => Err(Self::Error::UnsupportedConversionError),
+            Credentials::BasicAuth { username, password } => {
+                let password = password.unwrap_or_default();
+                let auth = general_purpose::STANDARD.encode(format!("{username}:{password}"));
+                Ok(HeaderValue::from_str(&format!("Basic {auth}"))?)
+            }
         }
     }
 }
-- 
2.43.0


From 2bda61efaad287ec10c8bf9d4b6dc5c655ad140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 47/72] fix: setting a scope's registry replaces it, with or
 without the @

---
 crates/oro-npm-account/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 6b1f536..306d5bb 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -161,7 +161,9 @@ fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
 }
 
 fn clean_scoped_registry_nodes(scope: &str, nodes: &mut Vec<KdlNode>) {
-    nodes.retain_mut(|node| node.name().value() != scope);
+    // The `@` is optional.
+    let unprefixed = |scope: &str| scope.strip_prefix('@').unwrap_or(scope).to_owned();
+    nodes.retain_mut(|node| unprefixed(node.name().value()) != unprefixed(scope));
 }
 
 impl TryFrom<Credentials> for HeaderValue {
-- 
2.43.0


From 189af9cf8aebdd4fd5156e45f330fd3d5c79e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 48/72] fix: storing credentials keeps entries for other
 registries

---
 crates/oro-npm-account/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 306d5bb..dbc079a 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -154,7 +154,8 @@ pub fn clear_crendentials_by_uri(uri: &Url, config: &mut KdlDocument) {
 fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
     nodes.retain_mut(|node| {
         let Ok(node_url) = Url::parse(node.name().value()) else {
-            return false;
+            // Not ours to remove.
+            return true;
         };
         oro_client::nerf_dart(&node_url) != oro_client::nerf_dart(uri)
     });
-- 
2.43.0


From 047c8fccda0edbd816cc070fe828f2817695fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 49/72] fix: credentials are stored even if the configuration
 has an empty auth node

---
 crates/oro-npm-account/src/config.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index dbc079a..adebe95 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -22,8 +22,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -71,11 +71,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
-- 
2.43.0


From f0cb4d5ae82817255459095c6a8b19392dd72981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 50/72] fix: tokens to revoke are escaped in the request's path

---
 crates/oro-client/src/api/logout.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 39d6051..ea961f0 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -1,9 +1,14 @@
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
+
 use crate::{OroClient, OroClientError};
 
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
         self.client
-            .delete(self.registry.join(&format!("-/user/token/{token}"))?)
+            .delete(self.registry.join(&format!(
+                "-/user/token/{}",
+                utf8_percent_encode(token, NON_ALPHANUMERIC)
+            ))?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
             .await?;
-- 
2.43.0


From 5468b4f509494333d15798b44c304f2d1fdcee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:50 +0000
Subject: [PATCH 51/72] fix: removing a dependency keeps the order of the
 others

---
 src/commands/add.rs    | 3 ++-
 src/commands/remove.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index e5957d9..7a3ae1d 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -151,7 +151,8 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // Not `.remove()`, which doesn't keep the order of the others.
+                        obj.retain(|dep, _| dep != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index 6c2abfd..c665c9f 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -92,7 +92,8 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // Not `.remove()`, which doesn't keep the order of the others.
+                        obj.retain(|dep, _| dep != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From 42cc9b9ca7253694e9d10851340111ecfaa161fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:24 +0000
Subject: [PATCH 52/72] fix: empty requests, as in "name": "", are any version

---
 crates/oro-package-spec/src/parsers/npm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index 33485be..0b09ffe 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -3,7 +3,7 @@ use node_semver::Version as SemVerVersion;
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
 use nom::character::complete::char;
-use nom::combinator::{cut, map, map_res, opt, verify};
+use nom::combinator::{cut, eof, map, map_res, opt, value, verify};
 use nom::error::context;
 use nom::sequence::{delimited, preceded, tuple};
 use nom::IResult;
@@ -24,7 +24,11 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
                     char('/'),
                 )),
                 map_res(take_till1(|x| x == '@' || x == '/'), util::package_name),
-                opt(preceded(tag("@"), cut(version_req))),
+                // `name@`, as in `"name": ""`, is the same as `name`.
+                opt(preceded(
+                    tag("@"),
+                    alt((value(None, eof), map(cut(version_req), Some))),
+                )),
             )),
             |(scope_opt, name, req)| {
                 let name = if let Some(scope) = scope_opt {
@@ -35,7 +39,7 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
                 PackageSpec::Npm {
                     scope: scope_opt.map(|x| x.into()),
                     name,
-                    requested: req,
+                    requested: req.flatten(),
                 }
             },
         ),
-- 
2.43.0


From 1edbcc08b758ace06a785ec8715b5c4709aa2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:45 +0000
Subject: [PATCH 53/72] fix: adding to a malformed package.json is an error,
 not a crash

---
 src/commands/add.rs | 10 ++++++++--
 src/error.rs        |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 7a3ae1d..3a4549f 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -9,6 +9,7 @@ use oro_pretty_json::Formatted;
 use crate::apply_args::ApplyArgs;
 use crate::commands::OroCommand;
 use crate::nassun_args::NassunArgs;
+use crate::OroError;
 
 /// Adds one or more dependencies to the target package.
 #[derive(Debug, Args)]
@@ -91,7 +92,7 @@ impl OroCommand for AddCmd {
                 if self.apply.emoji { "🔍 " } else { "" }
             );
             self.remove_from_manifest(&mut manifest, name);
-            self.add_to_manifest(&mut manifest, name, &resolved_spec);
+            self.add_to_manifest(&mut manifest, name, &resolved_spec)?;
             count += 1;
         }
 
@@ -130,11 +131,16 @@ impl OroCommand for AddCmd {
 }
 
 impl AddCmd {
-    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) {
+    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) -> Result<()> {
         let deps = self.dep_kind_str();
         tracing::debug!("Adding {name}@{spec} to {deps}.");
+        let section = mani.value.get(deps).unwrap_or(&serde_json::Value::Null);
+        if !mani.value.is_object() || !(section.is_object() || section.is_null()) {
+            return Err(OroError::InvalidPackageJson(deps).into());
+        }
         mani.value[deps][name] =
             serde_json::to_value(spec).expect("Value is always a valid string");
+        Ok(())
     }
 
     fn remove_from_manifest(&self, mani: &mut Formatted, name: &str) {
diff --git a/src/error.rs b/src/error.rs
index 325e2f1..6e54fa1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,4 +15,10 @@ pub enum OroError {
         help("Use the package name as it appears in your package.json instead.")
     )]
     InvalidPackageName(String),
+
+    /// The package.json has something other than an object where
+    /// dependencies should be listed.
+    #[error("Can't add dependencies to `{0}` in package.json, because it's not an object.")]
+    #[diagnostic(code(oro::add::invalid_package_json), url(docsrs))]
+    InvalidPackageJson(&'static str),
 }
-- 
2.43.0


From a989f6128b26ce3e806948c89de2a8f7305968f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 54/72] fix: git dependencies with a semver range check out the
 tag the version is from

---
 crates/nassun/src/fetch/git.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c6ea71a..ab1ee98 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -136,28 +136,30 @@ impl GitFetcher {
                 .output()
                 .await
                 .map_err(NassunError::GitIoError)?;
-            let versions: Vec<Version> = String::from_utf8(refs_output.stdout)
-                .map_err(|e| {
-                    NassunError::MiscError(format!("Could not decode git output as UTF-8. {}", e))
-                })?
+            let refs = String::from_utf8(refs_output.stdout).map_err(|e| {
+                NassunError::MiscError(format!("Could not decode git output as UTF-8. {}", e))
+            })?;
+            // The versions, and the tags they're for: not all tags are just a
+            // version (`v1.2.3`, `pkg/1.2.3`).
+            let versions: Vec<(Version, &str)> = refs
                 .lines()
                 .filter_map(|line| {
-                    line.split('/')
-                        .last()
-                        .and_then(|tag| Version::parse(tag).ok())
+                    let (_, tag) = line.split_once(' ')?;
+                    let version = Version::parse(tag.split('/').last()?).ok()?;
+                    Some((version, tag))
                 })
                 .collect();
             Some(
                 versions
                     .iter()
-                    .filter(|v| range.satisfies(v))
+                    .filter(|(v, _)| range.satisfies(v))
                     .max()
+                    .map(|(_, tag)| tag.to_string())
                     .ok_or_else(|| NassunError::NoVersion {
                         name: repo.to_string(),
                         spec: PackageSpec::Git(info.clone()),
-                        versions: versions.iter().map(|v| v.to_string()).collect(),
-                    })?
-                    .to_string(),
+                        versions: versions.iter().map(|(v, _)| v.to_string()).collect(),
+                    })?,
             )
         } else {
             committish.clone()
-- 
2.43.0


From 1a2375d12b118a38a04c1cfc55067a2a26d0f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 55/72] fix: git committishes aren't taken for options or files

---
 crates/nassun/src/fetch/git.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index ab1ee98..b36d801 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -165,9 +165,17 @@ impl GitFetcher {
             committish.clone()
         };
         if let Some(checkout_ref) = checkout_ref {
+            // Don't let git take it for an option, or for a file to restore.
+            if checkout_ref.starts_with('-') {
+                return Err(NassunError::GitCheckoutError(
+                    String::from(repo),
+                    checkout_ref,
+                ));
+            }
             Command::new(git)
                 .arg("checkout")
                 .arg(&checkout_ref)
+                .arg("--")
                 .current_dir(dir.join("package"))
                 .stdin(Stdio::null())
                 .stdout(Stdio::null())
-- 
2.43.0


From 0b8a290b49e8705d54773ac801e11c1c4975a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 56/72] fix: installing git or directory dependencies is an
 error, not a crash

---
 crates/nassun/src/fetch/dir.rs | 7 +++++--
 crates/nassun/src/fetch/git.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 9ed217a..91e73f3 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -144,9 +144,12 @@ impl PackageFetcher for DirFetcher {
         self.corgi_packument_from_path(&path).await
     }
 
-    async fn tarball(&self, _pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
+    async fn tarball(&self, pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
         // TODO: need to implement pack before this can be implemented :(
-        unimplemented!()
+        Err(NassunError::MiscError(format!(
+            "Installing packages from directories is not supported yet: {:?}.",
+            pkg.resolved()
+        )))
     }
 }
 
diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index b36d801..d8256c5 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -275,8 +275,12 @@ impl PackageFetcher for GitFetcher {
             .await
     }
 
-    async fn tarball(&self, _pkg: &crate::Package) -> Result<crate::TarballStream> {
-        todo!()
+    async fn tarball(&self, pkg: &crate::Package) -> Result<crate::TarballStream> {
+        // TODO: need to implement pack before this can be implemented :(
+        Err(NassunError::MiscError(format!(
+            "Installing packages from git repositories is not supported yet: {:?}.",
+            pkg.resolved()
+        )))
     }
 }
 
-- 
2.43.0


From 093c001b1e90906b97d0dcade1e15b886c59b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 57/72] fix: dependencies on any version are satisfied by any
 version

---
 crates/nassun/src/resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 506f3e2..4af1954 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -82,7 +82,8 @@ impl PackageResolution {
                         Some(VersionSpec::Range(r)) => r.satisfies(version),
                         // It's expected that `spec` has previously been resolved at least down to a range.
                         Some(VersionSpec::Tag(_)) => false,
-                        None => false,
+                        // Any version will do.
+                        None => true,
                     }
             }
             (PR::Dir { path: pr_path, .. }, PS::Dir { path: ps_path }) => {
-- 
2.43.0


From f298a78a4c32654ab38e8efba9fc5d29d86d6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:23 +0000
Subject: [PATCH 58/72] fix: git committishes can have slashes in them

---
 crates/oro-package-spec/src/parsers/git.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 39bc71d..9391305 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -71,7 +71,7 @@ fn committish(input: &str) -> IResult<&str, (Option<String>, Option<Range>), Spe
             map(preceded(tag("semver:"), cut(semver_range)), |req| {
                 (None, Some(req))
             }),
-            map(map_res(rest, util::no_url_encode), |com| (Some(com), None)),
+            map(map_res(rest, git_ref), |com| (Some(com), None)),
         )),
     ))(input)?;
     Ok((
@@ -84,6 +84,19 @@ fn committish(input: &str) -> IResult<&str, (Option<String>, Option<Range>), Spe
     ))
 }
 
+/// Names of branches and tags can have slashes in them.
+fn git_ref(input: &str) -> Result<&str, SpecParseError<&str>> {
+    if input.contains('/') {
+        // Parts of such names never start with a dot.
+        for part in input.split('/') {
+            util::package_name(part)?;
+        }
+        Ok(input)
+    } else {
+        util::no_url_encode(input)
+    }
+}
+
 fn semver_range(input: &str) -> IResult<&str, Range, SpecParseError<&str>> {
     let (input, range) = map_res(take_till1(|_| false), util::semver_range)(input)?;
     Ok((input, range))
-- 
2.43.0


From 52bf1b5bb5fb329481fbc931baaebe98e25e17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 59/72] fix: links in npm lockfiles don't fail the install

---
 crates/node-maintainer/src/lockfile.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index e16d54a..8fb5f96 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -169,6 +169,8 @@ impl Lockfile {
                 // The project itself, and anything else outside `node_modules`,
                 // is not an installed package.
                 .filter(|(path, _)| format!("/{path}").contains("/node_modules/"))
+                // Links are to directories, and those aren't locked.
+                .filter(|(_, entry)| !entry.link)
                 .map(|(path, entry)| LockfileNode::from_npm(path, entry))
                 .map(|node| {
                     let node = node?;
@@ -533,6 +535,8 @@ pub struct NpmPackageLockEntry {
     #[serde(default)]
     pub integrity: Option<String>,
     #[serde(default)]
+    pub link: bool,
+    #[serde(default)]
     pub dependencies: IndexMap<String, String>,
     #[serde(default)]
     pub dev_dependencies: IndexMap<String, String>,
-- 
2.43.0


From 94fa95060472823d6caafa0c9594ef294d624ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 60/72] fix: directory dependencies are relative to the
 project, wherever it's installed from

---
 crates/nassun/src/package.rs           |  5 +++++
 crates/nassun/src/resolver.rs          | 28 +++++++++++++++++++++-----
 crates/node-maintainer/src/graph.rs    |  2 +-
 crates/node-maintainer/src/resolver.rs | 12 ++++++-----
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index a74a5c0..b313815 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -73,6 +73,11 @@ impl Package {
         &self.resolved
     }
 
+    /// Whether this `Package` is one that `spec` asks for.
+    pub fn satisfies(&self, spec: &PackageSpec) -> Result<bool> {
+        self.resolved.satisfies_from(spec, &self.base_dir)
+    }
+
     /// The full [`Packument`] that this `Package` was resolved from.
     pub async fn packument(&self) -> Result<Arc<Packument>> {
         self.fetcher.packument(&self.from, &self.base_dir).await
diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 4af1954..f55e90d 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Display, path::PathBuf, sync::Arc};
+use std::{
+    fmt::Display,
+    path::{Path, PathBuf},
+    sync::Arc,
+};
 
 use node_semver::{Range as SemVerRange, Version as SemVerVersion};
 use oro_common::CorgiPackument;
@@ -63,6 +67,16 @@ impl std::fmt::Debug for PackageResolution {
 
 impl PackageResolution {
     pub fn satisfies(&self, spec: &PackageSpec) -> Result<bool, NassunError> {
+        self.satisfies_from(spec, Path::new(""))
+    }
+
+    /// Like [`PackageResolution::satisfies`], with directories relative to
+    /// `base_dir`.
+    pub(crate) fn satisfies_from(
+        &self,
+        spec: &PackageSpec,
+        base_dir: &Path,
+    ) -> Result<bool, NassunError> {
         use PackageResolution as PR;
         use PackageSpec as PS;
         Ok(match (self, spec.target()) {
@@ -87,10 +101,14 @@ impl PackageResolution {
                     }
             }
             (PR::Dir { path: pr_path, .. }, PS::Dir { path: ps_path }) => {
-                pr_path
-                    == &ps_path.canonicalize().io_context(|| {
-                        format!("Failed to canonicalize path: {}.", ps_path.display())
-                    })?
+                match base_dir.join(ps_path).canonicalize() {
+                    Ok(wanted) => {
+                        *pr_path == wanted
+                            || matches!(base_dir.join(pr_path).canonicalize(), Ok(p) if p == wanted)
+                    }
+                    // There's nothing there.
+                    Err(_) => false,
+                }
             }
             // TODO: Implement this.
             (PR::Git { .. }, PS::Git(..)) => false,
diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 47593d8..3e6e138 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -424,7 +424,7 @@ impl Graph {
                 if let Some(dep_idx) = self.resolve_dep(dependent.idx, dep_name) {
                     let dependency = &self.inner[dep_idx];
 
-                    if !dependency.package.resolved().satisfies(&edge.requested)? {
+                    if !dependency.package.satisfies(&edge.requested)? {
                         return Err(GraphValidationError(format!(
                             "Dependency {:?} does not satisfy requirement {} from {:?}",
                             dependency.package.resolved(),
diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index f10cca7..b0e65eb 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -304,10 +304,12 @@ impl<'a> Resolver<'a> {
         fetched: Option<&Package>,
     ) -> Result<Option<NodeIndex>, NodeMaintainerError> {
         if let Some(satisfier_idx) = graph.find_by_name(dep.node_idx, &dep.name)? {
-            let found = graph[satisfier_idx].package.resolved();
+            let found = &graph[satisfier_idx].package;
             // Tags and the like can't be compared to a version, but they are
             // satisfied by the very package they've just been resolved to.
-            if found.satisfies(&dep.spec)? || fetched.map(|pkg| pkg.resolved()) == Some(found) {
+            if found.satisfies(&dep.spec)?
+                || fetched.map(|pkg| pkg.resolved()) == Some(found.resolved())
+            {
                 let edge_idx = graph.inner.add_edge(
                     dep.node_idx,
                     satisfier_idx,
@@ -385,7 +387,7 @@ impl<'a> Resolver<'a> {
                         }
                         _ => false,
                     };
-                    if package.resolved().satisfies(requested)? || (pinned && same_package) {
+                    if package.satisfies(requested)? || (pinned && same_package) {
                         return Ok(Some((package, lockfile_node.clone())));
                     } else {
                         // TODO: Log this We found a lockfile node in a place
@@ -443,7 +445,7 @@ impl<'a> Resolver<'a> {
                         .edge_endpoints(edge_ref.id())
                         .expect("Where did the edge go?!?!");
                     if graph.is_ancestor(curr_target_idx, from)
-                        && !graph[resolved].package.resolved().satisfies(requested)?
+                        && !graph[resolved].package.satisfies(requested)?
                     {
                         break 'outer;
                     }
@@ -451,7 +453,7 @@ impl<'a> Resolver<'a> {
             }
 
             if let Some((req, _)) = graph[curr_target_idx].dependency_reqs.get(child_name) {
-                if req != requested && !graph[child_idx].package.resolved().satisfies(req)? {
+                if req != requested && !graph[child_idx].package.satisfies(req)? {
                     break 'outer;
                 }
             }
-- 
2.43.0


From 5d148ee0f8363309732955ef1deed15b27b1253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:38 +0000
Subject: [PATCH 61/72] fix: scripts find the executables of their dependencies
 before others on the PATH

---
 crates/oro-script/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oro-script/src/lib.rs b/crates/oro-script/src/lib.rs
index 4c02efc..8d86b51 100644
--- a/crates/oro-script/src/lib.rs
+++ b/crates/oro-script/src/lib.rs
@@ -175,16 +175,18 @@ impl<'a> OroScript<'a> {
     }
 
     fn set_all_paths(mut self) -> Result<Self> {
+        // Executables of the package's dependencies go first.
+        let mut paths = Vec::new();
         for dir in self.package_path.ancestors() {
-            self.paths
-                .push(dir.join("node_modules").join(".bin").to_path_buf());
+            paths.push(dir.join("node_modules").join(".bin").to_path_buf());
             if let Some(workspace_path) = &self.workspace_path {
                 if dir == workspace_path {
                     break;
                 }
             }
         }
-        let paths = format!("{}", std::env::join_paths(&self.paths)?.to_string_lossy());
+        paths.append(&mut self.paths);
+        let paths = format!("{}", std::env::join_paths(&paths)?.to_string_lossy());
         for (var, _) in Self::current_paths() {
             self = self.env(format!("{}", var.to_string_lossy()), paths.clone());
         }
-- 
2.43.0


From 108213e1467d57660b44b4313caf51195f952b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:38 +0000
Subject: [PATCH 62/72] fix: the PATH of scripts keeps entries that aren't
 UTF-8

---
 crates/oro-script/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oro-script/src/lib.rs b/crates/oro-script/src/lib.rs
index 8d86b51..c43d166 100644
--- a/crates/oro-script/src/lib.rs
+++ b/crates/oro-script/src/lib.rs
@@ -186,9 +186,9 @@ impl<'a> OroScript<'a> {
             }
         }
         paths.append(&mut self.paths);
-        let paths = format!("{}", std::env::join_paths(&paths)?.to_string_lossy());
+        let paths = std::env::join_paths(&paths)?;
         for (var, _) in Self::current_paths() {
-            self = self.env(format!("{}", var.to_string_lossy()), paths.clone());
+            self = self.env(var, &paths);
         }
         Ok(self)
     }
-- 
2.43.0


From 2564565bca588a76e77907c00c10aaa6f63e62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:38 +0000
Subject: [PATCH 63/72] fix: scripts don't find executables from above the
 project when its path has links

---
 crates/oro-script/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/oro-script/src/lib.rs b/crates/oro-script/src/lib.rs
index c43d166..c7e2b71 100644
--- a/crates/oro-script/src/lib.rs
+++ b/crates/oro-script/src/lib.rs
@@ -63,7 +63,9 @@ impl<'a> OroScript<'a> {
     /// If specified, `node_modules/.bin` directories above this path will not
     /// be added to the $PATH variable when running the script.
     pub fn workspace_path(mut self, path: impl AsRef<Path>) -> Self {
-        self.workspace_path = Some(path.as_ref().to_path_buf());
+        // Like the package's own path, so they can be compared.
+        let path = path.as_ref();
+        self.workspace_path = Some(dunce::canonicalize(path).unwrap_or_else(|_| path.into()));
         self
     }
 
-- 
2.43.0


From ed5f2921f58ea4e1f5033845b337a3803927f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:27 +0000
Subject: [PATCH 64/72] fix: script output that isn't UTF-8 doesn't fail the
 install

---
 crates/node-maintainer/src/linkers/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 94f4803..92d809a 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -1,5 +1,5 @@
 #[cfg(not(target_arch = "wasm32"))]
-use std::io::{BufRead, BufReader};
+use std::io::{BufRead, BufReader, Read};
 #[cfg(not(target_arch = "wasm32"))]
 use std::path::{Path, PathBuf};
 #[cfg(not(target_arch = "wasm32"))]
@@ -356,7 +356,7 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stdout_span.enter();
                     if let Some(stdout) = stdout {
-                        for line in BufReader::new(stdout).lines() {
+                        for line in script_lines(stdout) {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stdout_resolved}",
@@ -373,7 +373,7 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stderr_span.enter();
                     if let Some(stderr) = stderr {
-                        for line in BufReader::new(stderr).lines() {
+                        for line in script_lines(stderr) {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stderr_resolved}",
@@ -406,6 +406,16 @@ impl Linker {
     }
 }
 
+/// Lines of a script's output, which can be in any encoding.
+#[cfg(not(target_arch = "wasm32"))]
+fn script_lines(output: impl Read) -> impl Iterator<Item = std::io::Result<String>> {
+    BufReader::new(output).split(b'\n').map(|line| {
+        let line = line?;
+        let line = line.strip_suffix(b"\r").unwrap_or(&line);
+        Ok(String::from_utf8_lossy(line).into_owned())
+    })
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn supports_reflink(src_dir: &Path, dest_dir: &Path) -> bool {
     let temp = match tempfile::NamedTempFile::new_in(src_dir) {
-- 
2.43.0


From 716e7c7934ef8c6d4f88ba45f221747785ef34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:55 +0000
Subject: [PATCH 65/72] fix: a lockfile that can't be read isn't treated as if
 there was none

---
 crates/node-maintainer/src/maintainer.rs | 41 +++++++++++++-----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index b72f160..fb0059c 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -290,34 +290,22 @@ impl NodeMaintainerOptions {
         #[cfg(not(target_arch = "wasm32"))]
         if let Some(root) = &self.root {
             let kdl_lock = root.join("package-lock.kdl");
-            if kdl_lock.exists() {
-                match async_std::fs::read_to_string(&kdl_lock)
-                    .await
-                    .io_context(|| format!("Failed to read {}", kdl_lock.display()))
-                    .and_then(Lockfile::from_kdl)
-                {
+            if let Some(text) = read_lockfile(&kdl_lock).await? {
+                match Lockfile::from_kdl(text) {
                     Ok(lock) => return Ok(Some(lock)),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.kdl: {}", e),
                 }
             }
             let npm_lock = root.join("package-lock.json");
-            if npm_lock.exists() {
-                match async_std::fs::read_to_string(&npm_lock)
-                    .await
-                    .io_context(|| format!("Failed to read {}", npm_lock.display()))
-                    .and_then(Lockfile::from_npm)
-                {
+            if let Some(text) = read_lockfile(&npm_lock).await? {
+                match Lockfile::from_npm(text) {
                     Ok(lock) => return Ok(Some(lock)),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.json: {}", e),
                 }
             }
             let npm_lock = root.join("npm-shrinkwrap.json");
-            if npm_lock.exists() {
-                match async_std::fs::read_to_string(&npm_lock)
-                    .await
-                    .io_context(|| format!("Failed to read {}", npm_lock.display()))
-                    .and_then(Lockfile::from_npm)
-                {
+            if let Some(text) = read_lockfile(&npm_lock).await? {
+                match Lockfile::from_npm(text) {
                     Ok(lock) => return Ok(Some(lock)),
                     Err(e) => {
                         tracing::debug!("Failed to parse existing npm-shrinkwrap.json: {}", e)
@@ -443,6 +431,23 @@ impl NodeMaintainerOptions {
     }
 }
 
+/// Text of an existing lockfile. One that can't be read isn't the same as none:
+/// what it pins would be lost.
+#[cfg(not(target_arch = "wasm32"))]
+async fn read_lockfile(path: &Path) -> Result<Option<String>, NodeMaintainerError> {
+    match async_std::fs::read(path).await {
+        Ok(bytes) => match String::from_utf8(bytes) {
+            Ok(text) => Ok(Some(text)),
+            Err(e) => {
+                tracing::debug!("Failed to read existing {}: {}", path.display(), e);
+                Ok(None)
+            }
+        },
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e).io_context(|| format!("Failed to read {}", path.display())),
+    }
+}
+
 impl Default for NodeMaintainerOptions {
     fn default() -> Self {
         NodeMaintainerOptions {
-- 
2.43.0


From b5d7a89fb02de7d82ed985ea80b015fcc0549a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:59 +0000
Subject: [PATCH 66/72] fix: what the registry refuses isn't answered from the
 HTTP cache

---
 crates/oro-client/src/client.rs   | 19 +++++----
 crates/oro-client/src/lib.rs      |  2 +
 crates/oro-client/src/refusals.rs | 65 +++++++++++++++++++++++++++++++
 3 files changed, 79 insertions(+), 7 deletions(-)
 create mode 100644 crates/oro-client/src/refusals.rs

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 0147e22..6f2c1a9 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -14,6 +14,8 @@ use reqwest_middleware::ClientWithMiddleware;
 use reqwest_retry::{policies::ExponentialBackoff, RetryTransientMiddleware};
 use url::Url;
 
+#[cfg(not(target_arch = "wasm32"))]
+use crate::refusals::{KeepRefusals, RestoreRefusals};
 #[cfg(not(target_arch = "wasm32"))]
 use crate::OroClientError;
 use crate::{
@@ -167,13 +169,16 @@ impl OroClientBuilder {
 
         #[cfg(not(target_arch = "wasm32"))]
         if let Some(cache_loc) = self.cache {
-            client_builder = client_builder.with(Cache(HttpCache {
-                mode: CacheMode::Default,
-                manager: CACacheManager {
-                    path: cache_loc.to_string_lossy().into(),
-                },
-                options: None,
-            }));
+            client_builder = client_builder
+                .with(RestoreRefusals)
+                .with(Cache(HttpCache {
+                    mode: CacheMode::Default,
+                    manager: CACacheManager {
+                        path: cache_loc.to_string_lossy().into(),
+                    },
+                    options: None,
+                }))
+                .with(KeepRefusals);
         }
 
         // Retries have to come after the cache: once an error has gone through
diff --git a/crates/oro-client/src/lib.rs b/crates/oro-client/src/lib.rs
index 70c37bd..27ebf1d 100644
--- a/crates/oro-client/src/lib.rs
+++ b/crates/oro-client/src/lib.rs
@@ -6,6 +6,8 @@ mod client;
 mod credentials;
 mod error;
 mod notify;
+#[cfg(not(target_arch = "wasm32"))]
+mod refusals;
 
 pub use api::login;
 pub use api::packument;
diff --git a/crates/oro-client/src/refusals.rs b/crates/oro-client/src/refusals.rs
new file mode 100644
index 0000000..c877fd4
--- /dev/null
+++ b/crates/oro-client/src/refusals.rs
@@ -0,0 +1,65 @@
+//! The HTTP cache answers with what it has stored when the registry doesn't
+//! confirm it, whatever the registry says instead. That's fine when the
+//! registry has a problem, but not when it refuses, for example because a
+//! package doesn't exist anymore or because of missing permissions.
+//!
+//! [`KeepRefusals`] goes after the cache, and keeps such answers from it, and
+//! [`RestoreRefusals`] goes before the cache, and gives them to the caller.
+
+use std::sync::Mutex;
+
+use reqwest::{Request, Response, StatusCode};
+use reqwest_middleware::{Middleware, Next, Result};
+use task_local_extensions::Extensions;
+
+struct Refusal(Mutex<Response>);
+
+#[derive(Debug, Clone)]
+pub(crate) struct KeepRefusals;
+
+#[async_trait::async_trait]
+impl Middleware for KeepRefusals {
+    async fn handle(
+        &self,
+        req: Request,
+        extensions: &mut Extensions,
+        next: Next<'_>,
+    ) -> Result<Response> {
+        let response = next.run(req, extensions).await?;
+        let status = response.status();
+        if status.is_client_error() || status.is_server_error() {
+            extensions.insert(Refusal(Mutex::new(response)));
+            return Err(anyhow::anyhow!("The registry answered with {status}").into());
+        }
+        Ok(response)
+    }
+}
+
+#[derive(Debug, Clone)]
+pub(crate) struct RestoreRefusals;
+
+#[async_trait::async_trait]
+impl Middleware for RestoreRefusals {
+    async fn handle(
+        &self,
+        req: Request,
+        extensions: &mut Extensions,
+        next: Next<'_>,
+    ) -> Result<Response> {
+        let result = next.run(req, extensions).await;
+        match extensions
+            .remove::<Refusal>()
+            .and_then(|refusal| refusal.0.into_inner().ok())
+        {
+            Some(refusal) if result.is_err() || is_definite(refusal.status()) => Ok(refusal),
+            _ => result,
+        }
+    }
+}
+
+/// Whether there's no point in asking again.
+fn is_definite(status: StatusCode) -> bool {
+    status.is_client_error()
+        && status != StatusCode::REQUEST_TIMEOUT
+        && status != StatusCode::TOO_MANY_REQUESTS
+}
-- 
2.43.0


From 787fef7f059e93fbcdc0d752e3b21c4a7d65b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 67/72] fix: telemetry is off until the user agrees to it

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4eed64c..d9ad4c0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -444,6 +444,8 @@ impl Orogene {
 
         let mut cfg_builder = OroConfigOptions::new()
             .set_default("root", &root.to_string_lossy())?
+            // It's opt-in.
+            .set_default("telemetry", "false")?
             .env(true);
         if let Some(cache) = dirs.as_ref().map(|d| d.cache_dir().to_owned()) {
             cfg_builder = cfg_builder.set_default("cache", &cache.to_string_lossy())?;
-- 
2.43.0


From 71bc79fb273793d3e0787a3ae33bfd9195f3a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 68/72] fix: the first-time setup doesn't replace a
 configuration file it can't read

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d9ad4c0..59dea3c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -527,9 +527,13 @@ impl Orogene {
                 if !config_dir.exists() {
                     std::fs::create_dir_all(config_dir).unwrap();
                 }
-                let mut config: KdlDocument = std::fs::read_to_string(&config_path)
-                    .unwrap_or_default()
-                    .parse()?;
+                let mut config: KdlDocument = match std::fs::read_to_string(&config_path) {
+                    Ok(config) => config,
+                    // There might just not be a config file yet.
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => String::new(),
+                    Err(e) => return Err(e).into_diagnostic(),
+                }
+                .parse()?;
                 let telemetry_exists = config.query("options > telemetry")?.is_some();
                 if config.get("options").is_none() {
                     config.nodes_mut().push(KdlNode::new("options"));
-- 
2.43.0


From 6b5d81f09eb5a6df5b74d595f72a3a508a5562c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:28 +0000
Subject: [PATCH 69/72] fix: the first-time setup records answers also where
 the options were already configured

---
 src/lib.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 59dea3c..83b0d28 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -557,11 +557,9 @@ impl Orogene {
                             .unwrap()
                             .get_mut("telemetry")
                         {
-                            if let Some(val) = opt.get_mut(0) {
-                                *val = self.telemetry.into();
-                            } else {
-                                opt.push(KdlValue::Bool(self.telemetry));
-                            }
+                            // Not `.get_mut()`: an entry would still be
+                            // written the way it was read.
+                            opt.insert(0, KdlValue::Bool(self.telemetry));
                         }
                     }
                 }
@@ -582,11 +580,7 @@ impl Orogene {
                     .unwrap()
                     .get_mut("first-time")
                 {
-                    if let Some(val) = opt.get_mut(0) {
-                        *val = false.into();
-                    } else {
-                        opt.push(KdlValue::Bool(false));
-                    }
+                    opt.insert(0, KdlValue::Bool(false));
                 }
                 oro_common::write_atomic(config_path, config.to_string()).into_diagnostic()?;
             }
-- 
2.43.0


From 0adb31f5558be65bd63f3831369b8d716d061465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 70/72] fix: credentials on the command line don't end up in
 logs

---
 src/lib.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 83b0d28..52cf223 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -787,15 +787,40 @@ fn clean_old_logs(logs_dir: &Path) {
     }
 }
 
+/// Options whose values are nothing for logs.
+const SECRET_OPTIONS: &[&str] = &[
+    "--auth",
+    "--legacy-token",
+    "--password",
+    "--proxy-url",
+    "--token",
+];
+
 fn log_command_line() {
-    let mut args = std::env::args();
+    let mut args = std::env::args_os();
     let mut cmd = String::new();
     if let Some(arg) = args.next() {
-        cmd.push_str(&arg);
+        cmd.push_str(&arg.to_string_lossy());
     }
+    let mut is_secret = false;
     for arg in args {
+        let arg = arg.to_string_lossy();
         cmd.push(' ');
-        cmd.push_str(&arg);
+        if is_secret {
+            cmd.push_str("***");
+            is_secret = false;
+            continue;
+        }
+        match arg.split_once('=') {
+            Some((option, _)) if SECRET_OPTIONS.contains(&option) => {
+                cmd.push_str(option);
+                cmd.push_str("=***");
+            }
+            _ => {
+                is_secret = SECRET_OPTIONS.contains(&arg.as_ref());
+                cmd.push_str(&arg);
+            }
+        }
     }
     tracing::debug!("Running command: {cmd}");
 }
-- 
2.43.0


From 5446126577fa48de14a387aa727a28e7e8d80830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 71/72] fix: the warning about unknown credentials doesn't show
 them

---
 src/client_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client_args.rs b/src/client_args.rs
index 5d80a31..40d039a 100644
--- a/src/client_args.rs
+++ b/src/client_args.rs
@@ -85,7 +85,7 @@ impl TryFrom<ClientArgs> for OroClientBuilder {
                 builder = builder.legacy_auth(url, val.into());
             } else if key == "password" {
             } else {
-                tracing::warn!("Invalid authentication configuration for {reg}: {key} {val}");
+                tracing::warn!("Invalid authentication configuration for {reg}: {key}");
             }
         }
         Ok(builder)
-- 
2.43.0


From f2f2de48aac87801eb02897768196328cc511e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:25 +0000
Subject: [PATCH 72/72] fix: a failing logout doesn't print the token

---
 crates/oro-client/src/api/logout.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index ea961f0..a7fa5cb 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -1,17 +1,24 @@
 use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
+use reqwest_middleware::Error;
 
 use crate::{OroClient, OroClientError};
 
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
-        self.client
+        // Errors are not to show the URL, which the token is part of, and what
+        // goes by the cache has it in its messages already.
+        self.client_uncached
             .delete(self.registry.join(&format!(
                 "-/user/token/{}",
                 utf8_percent_encode(token, NON_ALPHANUMERIC)
             ))?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
-            .await?;
+            .await
+            .map_err(|e| match e {
+                Error::Reqwest(e) => Error::Reqwest(e.without_url()),
+                e => e,
+            })?;
         Ok(())
     }
 }
-- 
2.43.0

