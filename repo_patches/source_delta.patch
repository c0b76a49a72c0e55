From dedf1294e4b130f4fc1d3060207cec3be69c2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 01/28] fix: beam search leaves discarded nodes marked as open

Nodes that do not fit on the beam were dropped with OpenList::clear, which
does not reset their open list index.  When such a node was reached again by
a cheaper path it was updated on the open list at a stale index, which stops
the program or removes an unrelated node.
---
 search/beam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..65000a2 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -104,7 +104,10 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 				beam[c] = n;
 			}
 
-			open.clear();
+			// Pop the nodes that didn't fit so that they know
+			// that they are no longer on the open list.
+			while (!open.empty())
+				open.pop();
       
 			for(int i = 0; i < c && !solved && !SearchAlgorithm<D>::limit(); i++) {
 				Node *n = beam[i];
-- 
2.43.0


From fcd195a03918ddbbf6269eb8986fffb2ee691d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 02/28] fix: RTA* stores every second-best value in the start
 state

The second-best f value of each step was written through a pointer to the
start state's stored heuristic, so the start state had the value of whichever
state was left last and the search could cycle without ever reaching a goal.
---
 search/rtastar.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 7733e21..77a108c 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -54,15 +54,16 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 		this->start();
 		seen.init(d);
 		Current cur(s0, D::Nop, D::Nop, typename D::Cost(0), d.h(s0));
-		Cost *curh = storenode(d, cur.state, cur.f);
+		storenode(d, cur.state, cur.f);
 
 		while (!d.isgoal(cur.state) && !this->limit()) {
-			std::vector<Current> bests = bestkids(d, cur, *curh);
+			Cost sndf;
+			std::vector<Current> bests = bestkids(d, cur, sndf);
 			if (bests.size() == 0) {
 				this->res.ops.clear();
 				break;	// deadend;
 			}
-			storenode(d, cur.state, *curh);
+			storenode(d, cur.state, sndf);
 			cur = bests.at(randgen.integer(0, bests.size()-1));
 			this->res.ops.push_back(cur.op);
 		}
-- 
2.43.0


From a9ca17d6593c4e303f2bc2bcc2952caef444734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 03/28] fix: resetting RTA* keeps the previous result

---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 77a108c..e27573a 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -89,6 +89,7 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 	}
 
 	virtual void reset() {
+		SearchAlgorithm<D>::reset();
 		seen.clear();
 		delete nodes;
 		nodes = new Pool<Node>();
-- 
2.43.0


From c0c20c9732fe94fe6426b85cf29438f0dc049034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 04/28] fix: LSS-LRTA* and f-hat-LRTA* never give their tables
 the domain

ClosedList passes its domain to the hash and eq methods of packed states, but
the tables of these searches were never initialized with one, so any domain
that uses it (dock robots, for one) reads through an uninitialized pointer.
---
 search/fhatlrtastar.hpp | 6 ++++++
 search/lsslrtastar.hpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..a77e5c4 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -78,6 +78,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -197,6 +201,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..8b89c6f 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -90,6 +90,10 @@ private:
 		~Nodes() {
 		}
 
+		void init(D &d) {
+			tbl.init(d);
+		}
+
 		void clear() {
 			for (auto n : tbl)
 				pool.destruct(n);
@@ -221,6 +225,8 @@ public:
 
 	void search(D &d, State &s0) {
 		this->start();
+		nodes.init(d);
+		lssNodes.init(d);
 
 		Node *cur = nodes.get(d, s0);
 
-- 
2.43.0


From 4f3bc52e16f64757c914528ae9ff8ae584bc55d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 05/28] fix: f-hat-LRTA* reads the uninitialized parent of new
 nodes

New LSS nodes were tested for a parent to count duplicates before they had
one, so the duplicate count was arbitrary.
---
 search/fhatlrtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index a77e5c4..15e43d6 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -331,6 +331,7 @@ private:
 				if (!kid) {
 					kid = lssPool.construct();
 					kid->node = k;
+					kid->parent = NULL;
 					kid->g = geom2d::Infinity;
 					kid->openind = -1;
 					lssNodes.add(kid);
-- 
2.43.0


From 3181f58e2aaa9f014cf3effb4cceca8be89711fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 06/28] fix: RTA* ignores ties when it stores the second-best
 value

---
 search/rtastar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index e27573a..89f9828 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -131,6 +131,7 @@ private:
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
 			} else if (bests[0].f == f) {
 				assert (!bests.empty());
+				sndf = f;
 				bests.push_back(Current(e.state, ops[n], e.revop, e.cost, f));
 			} else if (better(f, sndf)) {
 				sndf = f;
-- 
2.43.0


From 5a35b03244d1af95c2e32d1a214241ca1273edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 07/28] fix: hash table removal leaves all but the first
 element of a bucket

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From 7f02a7717925a973564982fdd676d7f448104e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 08/28] fix: checked subtraction and multiplication miss
 overflows or trap

---
 utils/safeops.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/utils/safeops.hpp b/utils/safeops.hpp
index be90533..8b7319d 100644
--- a/utils/safeops.hpp
+++ b/utils/safeops.hpp
@@ -37,26 +37,22 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(a > 0 && b < 0 && n::max() + b < a)
-				throw BadFlow<N>(a, b, "-", true);
-			if(a < 0 && b > 0 && n::min() + b > a)
+			if(b < 0 && n::max() + b < a)
 				throw BadFlow<N>(a, b, "-", true);
+			if(b > 0 && n::min() + b > a)
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
 		static N mul(N a, N b){
 			if(a > 0 && b > 0 && n::max()/b < a)
 				throw BadFlow<N>(a, b, "*", true);
-			if(a < 0 && b > 0 && n::min()/a < b)
+			if(a < 0 && b > 0 && n::min()/b > a)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a > 0 && b < 0 && n::min()/b < a)
+			if(a > 0 && b < 0 && n::min()/a > b)
 				throw BadFlow<N>(a, b, "*", false);
-			if(a < 0 && b < 0){
-				if(a == n::min() || b == n::min())
-					throw BadFlow<N>(a, b, "*", true);
-				if(-(n::min()/b) > a)
-					throw BadFlow<N>(a, b, "*", true);
-			}
+			if(a < 0 && b < 0 && n::max()/b > a)
+				throw BadFlow<N>(a, b, "*", true);
 			return a * b;
 		}
 	
@@ -79,8 +75,8 @@ namespace safe {
 		}
 	
 		static N sub(N a, N b){
-			if(n::max() - b < a)
-				throw BadFlow<N>(a, b, "-", true);
+			if(b > a)
+				throw BadFlow<N>(a, b, "-", false);
 			return a - b;
 		}
 	
-- 
2.43.0


From 877e545539fdf52bad02ef0cd301fe846f551fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:21 +0000
Subject: [PATCH 09/28] fix: falling factorial of zero factors

---
 utils/math.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.cc b/utils/math.cc
index b2e1fab..953248c 100644
--- a/utils/math.cc
+++ b/utils/math.cc
@@ -46,8 +46,8 @@ unsigned long ipow(unsigned int b, unsigned int e) {
 }
 
 unsigned long fallfact(unsigned int x, unsigned int n) {
-	unsigned long f = x;
-	for (unsigned int i = 1; i < n; i++)
+	unsigned long f = 1;
+	for (unsigned int i = 0; i < n; i++)
 		f *= (x - i);
 	return f;
 }
-- 
2.43.0


From c1d23efb150ccc58390227aec6bec3c53a92da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:21 +0000
Subject: [PATCH 10/28] fix: rank tree is freed as a single object

---
 utils/rank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/rank.cc b/utils/rank.cc
index abbf738..f360b56 100644
--- a/utils/rank.cc
+++ b/utils/rank.cc
@@ -21,7 +21,7 @@ Ranker::Ranker(unsigned int sz, unsigned int n) :
 }
 
 Ranker::~Ranker() {
-	delete tree;
+	delete[] tree;
 }
 
 unsigned long Ranker::rank(const unsigned int p[])
-- 
2.43.0


From 39f3a9d1b6bb5ae75a5b943a6bd8d04ed137cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 11/28] fix: data file records that just fill the buffer lose a
 character

---
 utils/datafile.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..c5a4728 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,7 +21,7 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -29,7 +29,7 @@ void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -54,7 +54,7 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +62,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz - n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +74,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +102,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From 373854ffa8726750787f62fc2c97600d8ce77eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 12/28] fix: growing a temporal network leaves its arcs and
 undos dangling

---
 structs/stn.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/structs/stn.cc b/structs/stn.cc
index fb304a8..ec4d100 100644
--- a/structs/stn.cc
+++ b/structs/stn.cc
@@ -52,11 +52,31 @@ Stn::Stn(const Stn &o) : nodes(o.nodes.size()), undos(o.undos.size()) {
 }
 
 void Stn::grow(unsigned int num) {
-	unsigned int oldsz = nodes.size();
-	nodes.resize(oldsz + num);
+	// The arcs and the undos point to the nodes, so they
+	// must be made to point to the nodes' new locations.
+	std::vector<Node> bigger(nodes);
+	bigger.resize(nodes.size() + num);
 
-	for (unsigned int i = oldsz; i < nodes.size(); i++)
-		nodes[i].id = i;
+	for (unsigned int i = 0; i < bigger.size(); i++) {
+		Node &n = bigger[i];
+		n.id = i;
+		for (unsigned int j = 0; j < n.out.size(); j++)
+			n.out[j].first = &bigger[n.out[j].first->id];
+		for (unsigned int j = 0; j < n.in.size(); j++)
+			n.in[j].first = &bigger[n.in[j].first->id];
+	}
+
+	for (unsigned int i = 0; i < undos.size(); i++) {
+		Undo &u = undos[i];
+		for (unsigned int j = 0; j < u.popout.size(); j++)
+			u.popout[j] = &bigger[u.popout[j]->id];
+		for (unsigned int j = 0; j < u.prevto.size(); j++)
+			u.prevto[j].first = &bigger[u.prevto[j].first->id];
+		for (unsigned int j = 0; j < u.prevfrom.size(); j++)
+			u.prevfrom[j].first = &bigger[u.prevfrom[j].first->id];
+	}
+
+	nodes.swap(bigger);
 }
 
 bool Stn::add(const Constraint &c) {
-- 
2.43.0


From 62f5a39a3d298f051548bcde101e5ff915445ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:21 +0000
Subject: [PATCH 13/28] fix: the reverse of a life-cost grid move costs what
 leaving its destination costs

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..fce8e8e 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From d8fc8db4ccf3eb4cb2dcd808c8cae4c82b9f430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:21 +0000
Subject: [PATCH 14/28] fix: the four-way life-cost estimate is no longer -1 at
 a goal in the cheapest row

---
 gridnav/gridnav.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index fce8e8e..e0342ce 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -310,16 +310,16 @@ private:
 		auto c0 = map->coord(l0), c1 = map->coord(l1);
 		int x = c0.first - 1, gx = c1.first - 1;
 		int y = c0.second - 1, gy = c1.second - 1;
-		int h = map->h - 2;
+		int maxy = map->h - 3;
 		int dx = abs(gx - x);
 		int overcost = lifecost(y > gy ? y : gy);
 		int upover = dx*overcost + costfrom(y, gy);
-		int upoverdown = costfrom(y, h) + costfrom(h, gy);
+		int upoverdown = costfrom(y, maxy) + costfrom(maxy, gy);
 
 		if (upover < upoverdown)
 			return std::make_pair(Cost(upover), dx+abs(gy - y));
 
-		return std::make_pair(Cost(upoverdown), dx + h-1-y + h-1-gy);
+		return std::make_pair(Cost(upoverdown), dx + maxy-y + maxy-gy);
 	}
 
 	// life8cheap returns an admissible heuristic cost
-- 
2.43.0


From fe9ff893a9e4c46569aa6992538024f5419d9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:22 +0000
Subject: [PATCH 15/28] fix: the tiles reader checks both dimensions and every
 position

---
 tiles/tiles.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 7a93d6c..2177538 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -33,27 +33,35 @@ void Tiles::readruml(FILE *in) {
 	if (!safe::can_mul(w, h))
 		fatal("The tiles board is too big");
 
-	if (w != Width && h != HEIGHT)
+	if (w != Width || h != HEIGHT)
 		fatal("Width and height instance/compiler option mismatch");
 
 	if (fscanf(in, " starting positions for each tile:") != 0)
 		fatal("Failed to read the starting position label");
 
+	bool used[Ntiles] = { };
 	for (Tile t = 0; t < Ntiles; t++) {
 		unsigned int p;
 		int r = fscanf(in, " %u", &p);
 		if (r != 1)
 			fatal("Failed to read the starting position for tile %d", t);
+		if (p >= Ntiles || used[p])
+			fatal("Invalid starting position for tile %d", t);
+		used[p] = true;
 		init[p] = t;
 	}
 
 	if (fscanf(in, " goal positions:") != 0)
 		fatal("Failed to read the goal position label");
 
+	bool goalused[Ntiles] = { };
 	for (Tile t = 0; t < Ntiles; t++) {
 		unsigned int p;
 		if (fscanf(in, " %u", &p) != 1)
 			fatal("Failed to read the goal position");
+		if (p >= Ntiles || goalused[p])
+			fatal("Invalid goal position for tile %d", t);
+		goalused[p] = true;
 		goalpos[t] = p;
 	}
 }
-- 
2.43.0


From 5e08e66e01dda3e60adade9c873cface90f459e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 16/28] fix: the pancake reader refuses a stack that is not a
 permutation

---
 pancake/pancake.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pancake/pancake.cc b/pancake/pancake.cc
index 9b7ab57..5b51983 100644
--- a/pancake/pancake.cc
+++ b/pancake/pancake.cc
@@ -13,9 +13,13 @@ Pancake::Pancake(FILE *in) {
 	if (ncakes != Ncakes)
 		fatal("Number of pancakes instance/compiler option mismatch");
 
+	bool used[Ncakes] = { };
 	for (unsigned int i = 0; i < Ncakes; i++) {
 		if (fscanf(in, " %d", init + i) != 1)
 			fatalx(errno, "Failed to read pancake number %d", i);
+		if (init[i] < 0 || init[i] >= (Cake) Ncakes || used[init[i]])
+			fatal("Invalid pancake number %d", i);
+		used[init[i]] = true;
 	}
 }
 
-- 
2.43.0


From 2441a41cd399a80b4dd37c2f1c99d1b7837e962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 17/28] fix: a grid map read from an open file starts with
 unset fields

---
 gridnav/gridmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..7ed48b7 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,7 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) : map(NULL), lifecost(false), nmvs(0), flags(NULL) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From 6076667f85919b18c049892de9ec76febfa7f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 18/28] fix: unknown terrain in an octile map is refused
 instead of read out of bounds

---
 gridnav/gridmap.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gridnav/gridmap.cc b/gridnav/gridmap.cc
index 017f618..c1abc8c 100644
--- a/gridnav/gridmap.cc
+++ b/gridnav/gridmap.cc
@@ -213,8 +213,8 @@ void GridMap::load_sturtevant(FILE *in) {
 	}
 
 	const struct Terrain{
-		char flags[CHAR_MAX];
-		Terrain() {
+		char flags[UCHAR_MAX + 1];
+		Terrain() : flags() {
 			flags[(int) '.'] = Passable;
 			flags[(int) 'G'] = Passable;
 			flags[(int) '@'] = OutOfBounds;
@@ -226,8 +226,12 @@ void GridMap::load_sturtevant(FILE *in) {
 	} terrain;
 
 	for (unsigned int y = 1; y < h-1; y++) {
-		for (unsigned int x = 1; x < w-1; x++)
+		for (unsigned int x = 1; x < w-1; x++) {
 			flags[y*w + x] = terrain.flags[(int) map[y*w + x]];
+			if (!flags[y*w + x])
+				readfail("x=%u, y=%u: Unexpected character [%c] in map",
+					x, y, map[y*w + x]);
+		}
 	}
 
 	setoctile();
-- 
2.43.0


From 4dba31eff16aaa98bef4762b7950183382e0471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 19/28] fix: the traffic reader refuses empty maps, outside
 starts and goals, and broken obstacles

---
 traffic/gridmap.cc  | 13 +++++++++++--
 traffic/traffic.hpp |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/traffic/gridmap.cc b/traffic/gridmap.cc
index b6cef77..55bbfd6 100644
--- a/traffic/gridmap.cc
+++ b/traffic/gridmap.cc
@@ -15,12 +15,21 @@ void GridMap::load(FILE *in) {
 	if (fscanf(in, "%u %u\n", &w, &h) != 2)
 		fatal("Failed to read map header");
 
+	if (w == 0 || h == 0)
+		fatal("The map is empty");
+
+	if (!safe::can_mul(w, h))
+		fatal("Grid is too big");
+
 	sz = w * h;
 
-	int x, y, dx, dy;
-	while(fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy) == 4) {
+	int n, x, y, dx, dy;
+	while((n = fscanf(in, "%d %d %d %d\n", &x, &y, &dx, &dy)) == 4) {
 		obstacles.emplace_back(x,y,dx,dy);
 	}
+	if (n != EOF)
+		fatal("Failed to read obstacle %lu", (unsigned long) obstacles.size());
+
 	setfourway();
 }
 
diff --git a/traffic/traffic.hpp b/traffic/traffic.hpp
index 35a0c57..2e6fd18 100644
--- a/traffic/traffic.hpp
+++ b/traffic/traffic.hpp
@@ -96,13 +96,16 @@ struct Traffic {
 		unsigned int, unsigned int);
 
 	Traffic(FILE *in) {
-		int sx, sy, gx, gy;
+		unsigned int sx, sy, gx, gy;
 
 		if(fscanf(in, "%u %u %u %u\n", &sx, &sy, &gx, &gy) != 4)
 			fatal("improper file format");
 		
 		map = new GridMap(in);
 
+		if (sx >= map->w || sy >= map->h || gx >= map->w || gy >= map->h)
+			fatal("start or goal is outside of the map");
+
 		start = map->index(sx,sy);
 		finish = map->index(gx,gy);
 
-- 
2.43.0


From d57e7d99d969fcaa56ba7f255669aa9389fc08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:43 +0000
Subject: [PATCH 20/28] fix: obstacles on one-cell-wide traffic maps divide by
 zero

---
 traffic/gridmap.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/traffic/gridmap.hpp b/traffic/gridmap.hpp
index bbb0eaa..b030b36 100644
--- a/traffic/gridmap.hpp
+++ b/traffic/gridmap.hpp
@@ -135,11 +135,15 @@ struct GridMap {
 			 int x_p = abs(x + dx * t);
 			 int y_p = abs(y + dy * t);
 
-			 int x_reflections = x_p / (w-1);
-			 int y_reflections = y_p/ (h-1);
+			 // there is nowhere to go along a side of one cell
+			 int x_len = w > 1 ? w-1 : 1;
+			 int y_len = h > 1 ? h-1 : 1;
 
-			 int x_offset = x_p % (w-1);
-			 int y_offset = y_p % (h-1);
+			 int x_reflections = x_p / x_len;
+			 int y_reflections = y_p/ y_len;
+
+			 int x_offset = x_p % x_len;
+			 int y_offset = y_p % y_len;
 
 			if(x_reflections % 2 == 0) newPoint.first = x_offset;
 			else newPoint.first = w - x_offset - 1;
-- 
2.43.0


From 2aaa90ab0962cf4395c8733645d8358f63a65860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:53 +0000
Subject: [PATCH 21/28] fix: the vacuum estimate reads past the dirt list when
 the map is clean

---
 vacuum/vacuum.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 2fda4aa..9728e6a 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -47,6 +47,9 @@ public:
 	State initialstate(void) const;
 
 	Cost h(const State &s) const {
+		if (s.ndirt == 0)
+			return 0;
+
 		unsigned int i;
 		for (i = 0; i < s.dirt->size() && !s.dirt->at(i); i++)
 			;
-- 
2.43.0


From ac3eeb793e7306f74b347d053ebcdfad6293210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:53 +0000
Subject: [PATCH 22/28] fix: vacuum states on a charger offer an operator that
 stops the program

---
 vacuum/vacuum.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vacuum/vacuum.hpp b/vacuum/vacuum.hpp
index 9728e6a..340a519 100644
--- a/vacuum/vacuum.hpp
+++ b/vacuum/vacuum.hpp
@@ -98,7 +98,8 @@ public:
 					ops[n++] = i;
 			}
 
-			if (d.chargers[s.loc])
+			// There is nothing to charge when energy is unlimited.
+			if (s.energy >= 0 && d.chargers[s.loc])
 				ops[n++] = Charge;
 		}
 
-- 
2.43.0


From 8e97e0e3be8c98a68a0f6b56b81a2b3a0c282214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:40 +0000
Subject: [PATCH 23/28] fix: dock-robot instances with unsorted piles undo
 actions wrongly

---
 drobot/drobot.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..2e69374 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -151,6 +151,10 @@ reloop:
 		line = readline(in);
 	}
 
+	// Locs keep their piles sorted, findpile relies on it.
+	for (unsigned int i = 0; i < nlocs; i++)
+		std::sort(initlocs[i].piles.begin(), initlocs[i].piles.end());
+
 	initheuristic();
 }
 
-- 
2.43.0


From b261fe17ffa18c7e4290d8170c7804890f09e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:27 +0000
Subject: [PATCH 24/28] fix: non-square segment boards read from a file have
 width and height swapped

---
 segments/segments.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..f9fa867 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -73,10 +73,10 @@ Segments::Segments(FILE *in) {
 	for (unsigned int i = 0; i < nangles; i++)
 		angles.push_back(Angle(dtheta*i));
 
-	bounds[0] = LineSg(Pt(0, 0), Pt(0, width));
-	bounds[1] = LineSg(Pt(0, width), Pt(height, width));
-	bounds[2] = LineSg(Pt(height, width), Pt(height, 0));
-	bounds[3] = LineSg(Pt(height, 0), Pt(0, 0));
+	bounds[0] = LineSg(Pt(0, 0), Pt(0, height));
+	bounds[1] = LineSg(Pt(0, height), Pt(width, height));
+	bounds[2] = LineSg(Pt(width, height), Pt(width, 0));
+	bounds[3] = LineSg(Pt(width, 0), Pt(0, 0));
 
 	unsigned int n;
 	if (fscanf(in, "%u\n", &n) != 1)
-- 
2.43.0


From c8cd4425078f626bca2f9561305bea4b948c09a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:27 +0000
Subject: [PATCH 25/28] fix: segment boards made in memory have a diagonal
 instead of their left edge

---
 segments/segments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index f9fa867..f728f1a 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -108,7 +108,7 @@ Segments::Segments(unsigned int w, unsigned int h, unsigned int t, const std::ve
 	bounds[0] = LineSg(Pt(0, 0), Pt(w, 0));
 	bounds[1] = LineSg(Pt(w, 0), Pt(w, h));
 	bounds[2] = LineSg(Pt(w, h), Pt(0, h));
-	bounds[3] = LineSg(Pt(0, h), Pt(w, 0));
+	bounds[3] = LineSg(Pt(0, h), Pt(0, 0));
 }
 
 void Segments::State::init(const Segments &dom, const std::vector<Pose> &ps) {
-- 
2.43.0


From 112df30b41b6240726cdb5ddbf90c7d9c0755814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:31 +0000
Subject: [PATCH 26/28] fix: platformer levels that are taller than wide are
 refused

---
 plat2d/plat2d.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plat2d/plat2d.cc b/plat2d/plat2d.cc
index ff2674a..bdc5e1e 100644
--- a/plat2d/plat2d.cc
+++ b/plat2d/plat2d.cc
@@ -26,7 +26,7 @@ Plat2d::Plat2d(FILE *in) : lvl(in) {
 			gy = y;
 		}
 		if (lvl.at(x, y).tile.flags & Tile::Up) {
-			if (x0 < lvl.width() || x0 < lvl.height())
+			if (x0 < lvl.width() || y0 < lvl.height())
 				fatal("There are multiple start locations in the level");
 			x0 = x;
 			y0 = y;
-- 
2.43.0


From cf7670f04607fcbdc40e02a40bc15b3b28a9959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:31 +0000
Subject: [PATCH 27/28] fix: the platformer declares a reverse operator for
 moves that it does not undo

---
 plat2d/plat2d.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..9655047 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -161,13 +161,21 @@ struct Plat2d {
 			if (s.player.body.bbox.min.y == state.player.body.bbox.min.y) {
 				if (op == Player::Left) {
 					revop = Player::Right;
-					revcost = cost;
 				}
 				else if (op == Player::Right) {
 					revop = Player::Left;
-					revcost = cost;
 				}
 			}
+			if (revop != Nop) {
+				// A wall, the ground, or water may prevent
+				// the opposite action from leading back.
+				Player back(state.player);
+				back.act(d.lvl, (unsigned int) revop);
+				if (back == s.player)
+					revcost = cost;
+				else
+					revop = Nop;
+			}
 
 			assert (op != 0 || state.player == s.player);
 
-- 
2.43.0


From 75697802326fdbb3298461be34c2edf71080eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:51 +0000
Subject: [PATCH 28/28] fix: the platformer stops with an assertion when a
 frame out of water is at full speed

The distance moved is compared with the largest possible one exactly, but
swimming is at 0.7 of the speed and leaves positions that are rounded.
---
 plat2d/plat2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 9655047..f316f64 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -181,8 +181,9 @@ struct Plat2d {
 
 			double dy = fabs(s.player.body.bbox.center().y - state.player.body.bbox.center().y);
 			double dx = fabs(s.player.body.bbox.center().x - state.player.body.bbox.center().x);
-			assert (dx <= Maxx);
-			assert (dy <= Maxy);
+			// Speeds in water are not exact, so allow for rounding.
+			assert (dx <= Maxx || geom2d::doubleeq(dx, Maxx));
+			assert (dy <= Maxy || geom2d::doubleeq(dy, Maxy));
 		}
 	};
 
-- 
2.43.0

