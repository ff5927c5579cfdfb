From 612f72cb17308deea330705ce01ba3e53153e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 01/19] fix: leh: require the variable to be full when the
 distance is trivially satisfied

---
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..e1fe6df 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -52,7 +52,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..25187f7 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -52,7 +52,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-- 
2.43.0


From 5ff8e2a20783ffc37ff2daf19c6c5ef811120d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 02/19] fix: leh: name the ConstVarConst distance after the
 constant it is measured from

---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 25187f7..f12904c 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From c59947026c5b3abaa59a22e86f89b974de01bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 03/19] fix: hepr: encode an empty preference instead of
 panicking

---
 query/extensions/hepr/const_var.go | 5 +++++
 query/extensions/hepr/var_const.go | 5 +++++
 query/extensions/hepr/var_var.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..3f09beb 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,11 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// With no preference over any feature all instances have the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..9c2b580 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,11 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// With no preference over any feature all instances have the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..f52212b 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -39,6 +39,11 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
 
+	// With no preference over any feature all instances have the same rank.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
-- 
2.43.0


From 75aabb60496b6fb39d0471e8b1f6e899a2c67e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 04/19] fix: hepr: give preferences with multiple digit indexes
 different names

---
 query/extensions/hepr/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..bbe1d43 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -30,6 +30,8 @@ func prefVar(pref []int) query.QVar {
 
 	for _, idx := range pref {
 		sb.WriteString(strconv.Itoa(idx))
+		// Separate indexes so that different preferences have different names.
+		sb.WriteRune('-')
 	}
 
 	return query.QVar(sb.String())
-- 
2.43.0


From abecc71999d6e047d826f0399c1224480bc16d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 05/19] fix: isnode: do not share reachability variables with
 allcomp

---
 query/predicates/isnode/var.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..404402f 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -34,6 +34,9 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	ncnf := cnf.CNF{}
 	sv := ctx.ScopeVar(f.I)
 	svReach := f.ReachNodeVarGen(sv)
+	// Reachability is defined here by the path of sv itself and not by those of
+	// its completions, as in allcomp, so the two can not share variables.
+	svReach = query.QVar("node"+string(rune(30))) + svReach
 
 	// We will encode that sv reaches a node with index i as the triple
 	// (svReach, 0, i).
-- 
2.43.0


From 2da923c063168354b5b9bc79234bdc07c061e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 06/19] fix: logop: always constrain the variable declared by
 WithVar

---
 query/logop/with_var.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/query/logop/with_var.go b/query/logop/with_var.go
index c6e0939..03c7fc9 100644
--- a/query/logop/with_var.go
+++ b/query/logop/with_var.go
@@ -62,11 +62,6 @@ func (w WithVar) encodeI(ctx query.QContext) cnf.CNF {
 
 	v := ctx.ScopeVar(w.I)
 
-	// Lets not add consistency clauses twice.
-	if ctx.CNFVarExists(v, 0, int(query.BOT)) {
-		return ncnf
-	}
-
 	// Every feature must have at least one value
 	reqAllFeats := []cnf.Clause{}
 	for i := 0; i < ctx.Dim(); i++ {
-- 
2.43.0


From a4f5e3c474a2154747011923b576ecf65ca6e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 07/19] fix: dfs: return the empty model error instead of
 panicking

---
 query/extensions/dfs/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..52a779f 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -21,6 +21,10 @@ func leafsAsConsts(
 	pleaf := []query.QConst{}
 	nleaf := []query.QConst{}
 
+	if len(nodes) == 0 {
+		return pleaf, nleaf, nil
+	}
+
 	var tmp []query.FeatV
 	cv := make([]query.FeatV, dim)
 
-- 
2.43.0


From 73ec110f81a2a0f347b432f98e11f34e4e08d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 08/19] fix: query: forget the variables' scopes when resetting
 the scoper

---
 query/scoper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..5059749 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From d3e72549788783ef230af354ce65a997ffcaf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 09/19] fix: compute: report failures to create the optimum's
 temporary file

---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From 438d8f5466452e0e7e0a98ececf01e6cfed9a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 10/19] fix: compute: accept any blank space in the solver's
 value lines

---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..bee840d 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -149,7 +149,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0


From d920437ebce28d871e1250583154f975a91482ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 11/19] fix: compute: report values missing from the solver's
 output

---
 compute/solver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/solver.go b/compute/solver.go
index bee840d..45a296b 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -3,6 +3,7 @@ package compute
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -174,6 +175,11 @@ func varValueFromBytes(
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
+		return query.QConst{}, fmt.Errorf(
+			"Solver output does not assign feature %d of variable %s",
+			i,
+			string(v),
+		)
 	}
 
 	return c, nil
-- 
2.43.0


From 24842df19fcad5f614918a7002e6ee0ae468d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 12/19] fix: cnf: do not write to shared clauses when negating

---
 cnf/cnf.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..6fd64ac 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -125,15 +125,20 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			clauses = append(
+				clauses,
+				// Do not write to an array that may be shared.
+				append(clause[:len(clause):len(clause)], auxv),
+			)
 		}
 
 		// Literals representing negated clauses.
 		enclits = append(enclits, auxv)
 	}
 
-	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	// If no errors were found then update CNF. Capacity is limited as other
+	// formulas may share the underlying array.
+	c.cClauses = append(c.cClauses[:len(c.cClauses):len(c.cClauses)], clauses...)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
-- 
2.43.0


From 108c5ff621e9ea75b9a3fd7f8a81811dcfe5d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 13/19] fix: cnf: do not append to the array of the slice
 passed to FromClauses

---
 cnf/cnf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 6fd64ac..fd74ccf 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -48,7 +48,8 @@ var (
 
 // Create a new CNF struct from clauses. Clauses will be treated as semantic.
 func FromClauses(clauses []Clause) CNF {
-	ncnf := CNF{sClauses: clauses}
+	// Limit the capacity so that appending does not write to caller's slice.
+	ncnf := CNF{sClauses: clauses[:len(clauses):len(clauses)]}
 	ncnf.tv = maxVar(clauses)
 	return ncnf
 }
-- 
2.43.0


From d11e709f31b456cbd37e4fbeed38c4108deef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 14/19] fix: isnode: validate the model's nodes in the variable
 version

---
 query/predicates/isnode/var.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 404402f..47ac4ec 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -2,6 +2,7 @@ package isnode
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -51,6 +52,20 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		if node.IsLeaf() {
 			continue
 		}
+		if node.Feat < 0 || node.Feat >= dim {
+			return cnf.CNF{}, fmt.Errorf(
+				"Node's feature %d is out of range [0, %d]",
+				node.Feat,
+				dim-1,
+			)
+		}
+		if node.ZChild >= len(nodes) || node.OChild >= len(nodes) {
+			return cnf.CNF{}, fmt.Errorf(
+				"Node's children out of bounds (%d, %d)",
+				node.ZChild,
+				node.OChild,
+			)
+		}
 
 		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
 	}
-- 
2.43.0


From 2c23a18ca878fba4405ea6171f6d708b234ef126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 15/19] fix: allcomp: validate the model's nodes

---
 query/extensions/allcomp/const.go |  7 +++++++
 query/extensions/allcomp/var.go   | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..537f652 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -56,6 +56,13 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 				dim-1,
 			)
 		}
+		if n.ZChild >= len(nodes) || n.OChild >= len(nodes) {
+			return cnf.CNF{}, fmt.Errorf(
+				"Node's children out of bounds (%d, %d)",
+				n.ZChild,
+				n.OChild,
+			)
+		}
 
 		switch sc.Val[n.Feat] {
 		case query.BOT:
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..14036fc 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -2,6 +2,7 @@ package allcomp
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -37,6 +38,7 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv := ctx.ScopeVar(ac.I)
 	svReach := ac.ReachNodeVarGen(sv)
 	ncnf := cnf.CNF{}
+	dim := ctx.Dim()
 
 	// We will encode that sv reaches a node with index i as the triple
 	// (svReach, 0, i).
@@ -52,6 +54,20 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			}
 			continue
 		}
+		if node.Feat < 0 || node.Feat >= dim {
+			return cnf.CNF{}, fmt.Errorf(
+				"Node's feature %d is out of range [0, %d]",
+				node.Feat,
+				dim-1,
+			)
+		}
+		if node.ZChild >= len(nodes) || node.OChild >= len(nodes) {
+			return cnf.CNF{}, fmt.Errorf(
+				"Node's children out of bounds (%d, %d)",
+				node.ZChild,
+				node.OChild,
+			)
+		}
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-- 
2.43.0


From 610f0c5b3886a658e969ff7cd8f8f791bdcc0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:24 +0000
Subject: [PATCH 16/19] fix: leh, hepr: do not give constants the names of
 variables

---
 query/extensions/hepr/const_var.go      | 2 +-
 query/extensions/hepr/util.go           | 6 ++++++
 query/extensions/hepr/var_const.go      | 2 +-
 query/extensions/leh/const_const_var.go | 2 +-
 query/extensions/leh/const_var_const.go | 2 +-
 query/extensions/leh/const_var_var.go   | 4 ++--
 query/extensions/leh/utils.go           | 6 ++++++
 query/extensions/leh/var_const_const.go | 4 ++--
 query/extensions/leh/var_const_var.go   | 2 +-
 query/extensions/leh/var_var_const.go   | 2 +-
 10 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 3f09beb..a87af91 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -40,7 +40,7 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv := ctx.ScopeVar(d.I2)
 	cvp := d.FeaturePreferenceRankVarGen(
 		prefVar(d.Preference),
-		query.QVar(sc.AsString()),
+		constVar(sc),
 		sv,
 	)
 
diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index bbe1d43..b209d20 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -36,3 +36,9 @@ func prefVar(pref []int) query.QVar {
 
 	return query.QVar(sb.String())
 }
+
+// constVar returns a query variable corresponding to c. It starts with the unit
+// separator character (ascii 31) so that no variable of a query has its name.
+func constVar(c query.QConst) query.QVar {
+	return query.QVar(string(rune(31)) + c.AsString())
+}
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index 9c2b580..8aaf296 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -41,7 +41,7 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	vcp := d.FeaturePreferenceRankVarGen(
 		prefVar(d.Preference),
 		sv,
-		query.QVar(sc.AsString()),
+		constVar(sc),
 	)
 
 	if err := query.ValidateConstsDim(dim, sc); err != nil {
diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index e1fe6df..51116d8 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -36,7 +36,7 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I2)
 	sv := ctx.ScopeVar(l.I3)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index f12904c..cfb7f57 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_var.go b/query/extensions/leh/const_var_var.go
index abfb3d6..1b771e6 100644
--- a/query/extensions/leh/const_var_var.go
+++ b/query/extensions/leh/const_var_var.go
@@ -35,8 +35,8 @@ func (l ConstVarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc, _ := ctx.ScopeConst(l.I1)
 	sv1 := ctx.ScopeVar(l.I2)
 	sv2 := ctx.ScopeVar(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
-	v2chd := l.HammingDistanceVarGen(sv2, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
+	v2chd := l.HammingDistanceVarGen(sv2, constVar(sc))
 
 	if err := query.ValidateConstsDim(ctx.Dim(), sc); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/utils.go b/query/extensions/leh/utils.go
index 44a584f..f30b155 100644
--- a/query/extensions/leh/utils.go
+++ b/query/extensions/leh/utils.go
@@ -228,3 +228,9 @@ func fullVarEqualClauses(
 
 	return clauses
 }
+
+// constVar returns a query variable corresponding to c. It starts with the unit
+// separator character (ascii 31) so that no variable of a query has its name.
+func constVar(c query.QConst) query.QVar {
+	return query.QVar(string(rune(31)) + c.AsString())
+}
diff --git a/query/extensions/leh/var_const_const.go b/query/extensions/leh/var_const_const.go
index 2061dec..758665a 100644
--- a/query/extensions/leh/var_const_const.go
+++ b/query/extensions/leh/var_const_const.go
@@ -36,8 +36,8 @@ func (l VarConstConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I2)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I1)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
-	vc2hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, constVar(sc1))
+	vc2hd := l.HammingDistanceVarGen(sv, constVar(sc2))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/var_const_var.go b/query/extensions/leh/var_const_var.go
index 85e2648..39c680a 100644
--- a/query/extensions/leh/var_const_var.go
+++ b/query/extensions/leh/var_const_var.go
@@ -40,7 +40,7 @@ func (l VarConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc, _ := ctx.ScopeConst(l.I2)
 	sv1 := ctx.ScopeVar(l.I1)
 	sv2 := ctx.ScopeVar(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
 	vvhd := l.HammingDistanceVarGen(sv1, sv2)
 	vvef := l.EqualFeatureVarGen(sv1, sv2)
 
diff --git a/query/extensions/leh/var_var_const.go b/query/extensions/leh/var_var_const.go
index 426faaf..1b7fb73 100644
--- a/query/extensions/leh/var_var_const.go
+++ b/query/extensions/leh/var_var_const.go
@@ -37,7 +37,7 @@ func (l VarVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv1 := ctx.ScopeVar(l.I1)
 	sv2 := ctx.ScopeVar(l.I2)
 	sc, _ := ctx.ScopeConst(l.I3)
-	v1chd := l.HammingDistanceVarGen(sv1, query.QVar(sc.AsString()))
+	v1chd := l.HammingDistanceVarGen(sv1, constVar(sc))
 	vvhd := l.HammingDistanceVarGen(sv1, sv2)
 	vvef := l.EqualFeatureVarGen(sv1, sv2)
 
-- 
2.43.0


From 5a5d10ff30914b0516b3c17a7eae0bed4f49bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 17/19] fix: compute: run the solver at the given path, not one
 found in PATH

---
 compute/solver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 45a296b..e5d6d32 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strconv"
 
 	"github.com/jtcaraball/goexpdt/cnf"
@@ -51,7 +52,13 @@ func BinSolver(solverPath string) (Solver, error) {
 		return nil, err
 	}
 
-	return &binSolver{solverPath: solverPath}, nil
+	// A name without a directory would be searched for in PATH when running it.
+	path, err := filepath.Abs(solverPath)
+	if err != nil {
+		return nil, err
+	}
+
+	return &binSolver{solverPath: path}, nil
 }
 
 func (s *binSolver) Step(
-- 
2.43.0


From 2032d6b5d3017f9177e258f0a3f3d63365393113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 18/19] fix: cnf: do not overwrite clauses of formulas extended
 from the same one

---
 cnf/cnf.go | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index fd74ccf..39aafb6 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"sync/atomic"
 )
 
 // Clause represents a cnf formula's clause with integer variables where
@@ -34,6 +35,10 @@ type CNF struct {
 	sClauses []Clause
 	// Consistency clauses
 	cClauses []Clause
+	// Number of clauses in use in the arrays of sClauses and cClauses, which
+	// may be shared with other formulas.
+	sUsed *atomic.Int64
+	cUsed *atomic.Int64
 }
 
 var (
@@ -169,29 +174,46 @@ func (c *CNF) addNegationIFFClauses(enclits Clause) {
 // clauses with those from the passed CNF.
 func (c CNF) Conjunction(oc CNF) CNF {
 	rcnf := c.AppendSemantics(oc.sClauses...)
-	rcnf.cClauses = c.cClauses
 	rcnf = rcnf.AppendConsistency(oc.cClauses...)
 	return rcnf
 }
 
 // AppendSpemantics appends semantic clauses to CNF and update tv value.
 func (c CNF) AppendSemantics(clauses ...Clause) CNF {
-	topv := maxInt(c.tv, maxVar(clauses))
-	return CNF{
-		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
-		cClauses: c.cClauses,
-	}
+	c.tv = maxInt(c.tv, maxVar(clauses))
+	c.sClauses, c.sUsed = extend(c.sClauses, c.sUsed, clauses)
+	return c
 }
 
 // AppendConsistency appends consistency clauses to CNF and update tv value.
 func (c CNF) AppendConsistency(clauses ...Clause) CNF {
-	topv := maxInt(c.tv, maxVar(clauses))
-	return CNF{
-		tv:       topv,
-		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+	c.tv = maxInt(c.tv, maxVar(clauses))
+	c.cClauses, c.cUsed = extend(c.cClauses, c.cUsed, clauses)
+	return c
+}
+
+// extend appends clauses to base, copying it unless the space behind it in its
+// array is known to be free, as an other formula extended from the same one may
+// be using it. The value of used is the number of clauses in use in the array.
+func extend(
+	base []Clause,
+	used *atomic.Int64,
+	clauses []Clause,
+) ([]Clause, *atomic.Int64) {
+	if len(clauses) == 0 {
+		return base, used
 	}
+
+	blen := int64(len(base))
+	elen := blen + int64(len(clauses))
+
+	if used == nil || !used.CompareAndSwap(blen, elen) {
+		base = base[:blen:blen]
+		used = new(atomic.Int64)
+		used.Store(elen)
+	}
+
+	return append(base, clauses...), used
 }
 
 // ToBytes returns CNF formula as bytes in DIMACS CNF format.
-- 
2.43.0


From 36201ccb485cfea5ae5894e50b3dfa445601c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 19/19] fix: compute: read the values of a variable under the
 name its context gives it

---
 compute/solver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compute/solver.go b/compute/solver.go
index e5d6d32..70d272f 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -150,6 +150,7 @@ func varValueFromBytes(
 	ctx query.QContext,
 ) (query.QConst, error) {
 	var c query.QConst
+	v = ctx.ScopeVar(v) // The name under which it was encoded.
 	vval := make(map[int]bool)
 	vfilter := variableFilter(v, ctx)
 
-- 
2.43.0

