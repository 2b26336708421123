From cdfbaf68c160db7792e59a527edfb21245119e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:31 +0000
Subject: [PATCH 01/35] fix: make the gte, lte and <> operators reachable

The shorter alternatives (gt, lt, <) came first in the grammar, so the
longer ones could never match and such queries were rejected.
---
 miniquery/miniquery.peg    |  4 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..abeeec0 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<>' / '<'  / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..29733cd 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1476,7 +1476,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1527,6 +1527,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1542,10 +1546,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1613,6 +1613,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1661,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1761,21 +1791,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1808,21 +1823,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From afd639286228652358e34f6135ea87ede53444aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:54 +0000
Subject: [PATCH 02/35] fix: keep all names of a json reference

The rule for a->b pushed one node per name and never combined them, so
a->b = 1 was read as b = 1. It now yields one node holding all names;
the backends report it as unsupported.
---
 miniquery/miniquery.peg    |   2 +-
 miniquery/miniquery.peg.go | 154 +++++++++++++++++++++++--------------
 miniquery/node.go          |   7 +-
 miniquery/tree.go          |  10 ++-
 4 files changed, 111 insertions(+), 62 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index abeeec0..bcfe6db 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -29,7 +29,7 @@ Reference     <- IdentifierReference
               / JsonReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
-JsonReference <- Identifier '->' (JsonReference / Identifier)
+JsonReference <- {p.AddMark()} Identifier '->' Identifier ( '->' Identifier)* {p.PopJsonReference()}
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<>' / '<'  / '=' )> _ {p.AddCompare(text)}
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index 29733cd..4475c29 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -81,6 +81,8 @@ const (
 	ruleAction27
 	ruleAction28
 	ruleAction29
+	ruleAction30
+	ruleAction31
 )
 
 var rul3s = [...]string{
@@ -148,6 +150,8 @@ var rul3s = [...]string{
 	"Action27",
 	"Action28",
 	"Action29",
+	"Action30",
+	"Action31",
 }
 
 type token32 struct {
@@ -264,7 +268,7 @@ type MiniQueryPeg struct {
 
 	Buffer string
 	buffer []rune
-	rules  [64]func() bool
+	rules  [66]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -395,36 +399,40 @@ func (p *MiniQueryPeg) Execute() {
 		case ruleAction13:
 			p.PopIdentifierReference()
 		case ruleAction14:
-			p.AddName(text)
+			p.AddMark()
 		case ruleAction15:
-			p.AddCompare(text)
+			p.PopJsonReference()
 		case ruleAction16:
-			p.AddCompare(text)
+			p.AddName(text)
 		case ruleAction17:
 			p.AddCompare(text)
 		case ruleAction18:
-			p.AddLogic(text)
+			p.AddCompare(text)
 		case ruleAction19:
-			p.AddLogic(text)
+			p.AddCompare(text)
 		case ruleAction20:
-			p.AddMatch(text)
+			p.AddLogic(text)
 		case ruleAction21:
-			p.AddMark()
+			p.AddLogic(text)
 		case ruleAction22:
-			p.PopArray()
+			p.AddMatch(text)
 		case ruleAction23:
 			p.AddMark()
 		case ruleAction24:
 			p.PopArray()
 		case ruleAction25:
-			p.AddInteger(text)
+			p.AddMark()
 		case ruleAction26:
-			p.AddBoolean(text)
+			p.PopArray()
 		case ruleAction27:
-			p.AddNull()
+			p.AddInteger(text)
 		case ruleAction28:
-			p.AddString(text)
+			p.AddBoolean(text)
 		case ruleAction29:
+			p.AddNull()
+		case ruleAction30:
+			p.AddString(text)
+		case ruleAction31:
 			p.AddString(text)
 
 		}
@@ -1323,11 +1331,14 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position89, tokenIndex89
 			return false
 		},
-		/* 13 JsonReference <- <(Identifier ('-' '>') (JsonReference / Identifier))> */
+		/* 13 JsonReference <- <(Action14 Identifier ('-' '>') Identifier ('-' '>' Identifier)* Action15)> */
 		func() bool {
 			position93, tokenIndex93 := position, tokenIndex
 			{
 				position94 := position
+				if !_rules[ruleAction14]() {
+					goto l93
+				}
 				if !_rules[ruleIdentifier]() {
 					goto l93
 				}
@@ -1339,19 +1350,30 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					goto l93
 				}
 				position++
+				if !_rules[ruleIdentifier]() {
+					goto l93
+				}
+			l95:
 				{
-					position95, tokenIndex95 := position, tokenIndex
-					if !_rules[ruleJsonReference]() {
+					position96, tokenIndex96 := position, tokenIndex
+					if buffer[position] != rune('-') {
 						goto l96
 					}
-					goto l95
-				l96:
-					position, tokenIndex = position95, tokenIndex95
+					position++
+					if buffer[position] != rune('>') {
+						goto l96
+					}
+					position++
 					if !_rules[ruleIdentifier]() {
-						goto l93
+						goto l96
 					}
+					goto l95
+				l96:
+					position, tokenIndex = position96, tokenIndex96
+				}
+				if !_rules[ruleAction15]() {
+					goto l93
 				}
-			l95:
 				add(ruleJsonReference, position94)
 			}
 			return true
@@ -1359,7 +1381,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position93, tokenIndex93
 			return false
 		},
-		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
+		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action16)> */
 		func() bool {
 			position97, tokenIndex97 := position, tokenIndex
 			{
@@ -1466,7 +1488,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					}
 					add(rulePegText, position106)
 				}
-				if !_rules[ruleAction14]() {
+				if !_rules[ruleAction16]() {
 					goto l97
 				}
 				add(ruleIdentifier, position98)
@@ -1476,7 +1498,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action17) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action18) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action19))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1570,7 +1592,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					if !_rules[rule_]() {
 						goto l115
 					}
-					if !_rules[ruleAction15]() {
+					if !_rules[ruleAction17]() {
 						goto l115
 					}
 					goto l114
@@ -1834,7 +1856,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					if !_rules[rule_]() {
 						goto l123
 					}
-					if !_rules[ruleAction16]() {
+					if !_rules[ruleAction18]() {
 						goto l123
 					}
 					goto l114
@@ -2025,7 +2047,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					if !_rules[rule_]() {
 						goto l112
 					}
-					if !_rules[ruleAction17]() {
+					if !_rules[ruleAction19]() {
 						goto l112
 					}
 				}
@@ -2037,7 +2059,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position112, tokenIndex112
 			return false
 		},
-		/* 16 Logic <- <((_ <((('a' / 'A') ('n' / 'N') ('d' / 'D')) / (('o' / 'O') ('r' / 'R')))> _ Action18) / (_ <(('&' '&') / ('|' '|'))> _ Action19))> */
+		/* 16 Logic <- <((_ <((('a' / 'A') ('n' / 'N') ('d' / 'D')) / (('o' / 'O') ('r' / 'R')))> _ Action20) / (_ <(('&' '&') / ('|' '|'))> _ Action21))> */
 		func() bool {
 			position184, tokenIndex184 := position, tokenIndex
 			{
@@ -2136,7 +2158,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					if !_rules[rule_]() {
 						goto l187
 					}
-					if !_rules[ruleAction18]() {
+					if !_rules[ruleAction20]() {
 						goto l187
 					}
 					goto l186
@@ -2175,7 +2197,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 					if !_rules[rule_]() {
 						goto l184
 					}
-					if !_rules[ruleAction19]() {
+					if !_rules[ruleAction21]() {
 						goto l184
 					}
 				}
@@ -2187,7 +2209,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position184, tokenIndex184
 			return false
 		},
-		/* 17 Match <- <(__ <(('i' 's' 'n' 'u' 'l' 'l') / ('n' 'o' 't' 'n' 'u' 'l' 'l') / ('i' 's' __ ((&('n') ('n' 'u' 'l' 'l')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))) / ('i' 's' __ ('n' 'o' 't') __ ((&('n') ('n' 'u' 'l' 'l')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))))> _ Action20)> */
+		/* 17 Match <- <(__ <(('i' 's' 'n' 'u' 'l' 'l') / ('n' 'o' 't' 'n' 'u' 'l' 'l') / ('i' 's' __ ((&('n') ('n' 'u' 'l' 'l')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))) / ('i' 's' __ ('n' 'o' 't') __ ((&('n') ('n' 'u' 'l' 'l')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))))> _ Action22)> */
 		func() bool {
 			position204, tokenIndex204 := position, tokenIndex
 			{
@@ -2424,7 +2446,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				if !_rules[rule_]() {
 					goto l204
 				}
-				if !_rules[ruleAction20]() {
+				if !_rules[ruleAction22]() {
 					goto l204
 				}
 				add(ruleMatch, position205)
@@ -2459,7 +2481,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position213, tokenIndex213
 			return false
 		},
-		/* 19 Array <- <(('[' Action21 _ (Literal (_ ',' _ Literal)* _ ','?)? _ ']' Action22) / ('(' Action23 _ (Literal (_ ',' _ Literal)* _ ','?)? _ ')' Action24))> */
+		/* 19 Array <- <(('[' Action23 _ (Literal (_ ',' _ Literal)* _ ','?)? _ ']' Action24) / ('(' Action25 _ (Literal (_ ',' _ Literal)* _ ','?)? _ ')' Action26))> */
 		func() bool {
 			position217, tokenIndex217 := position, tokenIndex
 			{
@@ -2470,7 +2492,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l220
 					}
 					position++
-					if !_rules[ruleAction21]() {
+					if !_rules[ruleAction23]() {
 						goto l220
 					}
 					if !_rules[rule_]() {
@@ -2527,7 +2549,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l220
 					}
 					position++
-					if !_rules[ruleAction22]() {
+					if !_rules[ruleAction24]() {
 						goto l220
 					}
 					goto l219
@@ -2537,7 +2559,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l217
 					}
 					position++
-					if !_rules[ruleAction23]() {
+					if !_rules[ruleAction25]() {
 						goto l217
 					}
 					if !_rules[rule_]() {
@@ -2594,7 +2616,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l217
 					}
 					position++
-					if !_rules[ruleAction24]() {
+					if !_rules[ruleAction26]() {
 						goto l217
 					}
 				}
@@ -2639,7 +2661,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position233, tokenIndex233
 			return false
 		},
-		/* 21 Integer <- <(<('0' / ([1-9] [0-9]*))> Action25)> */
+		/* 21 Integer <- <(<('0' / ([1-9] [0-9]*))> Action27)> */
 		func() bool {
 			position236, tokenIndex236 := position, tokenIndex
 			{
@@ -2674,7 +2696,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l239:
 					add(rulePegText, position238)
 				}
-				if !_rules[ruleAction25]() {
+				if !_rules[ruleAction27]() {
 					goto l236
 				}
 				add(ruleInteger, position237)
@@ -2684,7 +2706,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position236, tokenIndex236
 			return false
 		},
-		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> Action26)> */
+		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> Action28)> */
 		func() bool {
 			position243, tokenIndex243 := position, tokenIndex
 			{
@@ -2774,7 +2796,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 
 					add(rulePegText, position245)
 				}
-				if !_rules[ruleAction26]() {
+				if !_rules[ruleAction28]() {
 					goto l243
 				}
 				add(ruleBoolean, position244)
@@ -2784,7 +2806,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position243, tokenIndex243
 			return false
 		},
-		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> Action27)> */
+		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> Action29)> */
 		func() bool {
 			position247, tokenIndex247 := position, tokenIndex
 			{
@@ -2832,7 +2854,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l250:
 					add(rulePegText, position249)
 				}
-				if !_rules[ruleAction27]() {
+				if !_rules[ruleAction29]() {
 					goto l247
 				}
 				add(ruleNull, position248)
@@ -2842,7 +2864,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position247, tokenIndex247
 			return false
 		},
-		/* 24 String <- <(('\'' <(!'\'' .)*> '\'' Action28) / ('"' <(!'"' .)*> '"' Action29))> */
+		/* 24 String <- <(('\'' <(!'\'' .)*> '\'' Action30) / ('"' <(!'"' .)*> '"' Action31))> */
 		func() bool {
 			position252, tokenIndex252 := position, tokenIndex
 			{
@@ -2881,7 +2903,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l255
 					}
 					position++
-					if !_rules[ruleAction28]() {
+					if !_rules[ruleAction30]() {
 						goto l255
 					}
 					goto l254
@@ -2919,7 +2941,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						goto l252
 					}
 					position++
-					if !_rules[ruleAction29]() {
+					if !_rules[ruleAction31]() {
 						goto l252
 					}
 				}
@@ -3245,21 +3267,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			}
 			return true
 		},
-		/* 48 Action14 <- <{p.AddName(text)}> */
+		/* 48 Action14 <- <{p.AddMark()}> */
 		func() bool {
 			{
 				add(ruleAction14, position)
 			}
 			return true
 		},
-		/* 49 Action15 <- <{p.AddCompare(text)}> */
+		/* 49 Action15 <- <{p.PopJsonReference()}> */
 		func() bool {
 			{
 				add(ruleAction15, position)
 			}
 			return true
 		},
-		/* 50 Action16 <- <{p.AddCompare(text)}> */
+		/* 50 Action16 <- <{p.AddName(text)}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -3273,35 +3295,35 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			}
 			return true
 		},
-		/* 52 Action18 <- <{p.AddLogic(text)}> */
+		/* 52 Action18 <- <{p.AddCompare(text)}> */
 		func() bool {
 			{
 				add(ruleAction18, position)
 			}
 			return true
 		},
-		/* 53 Action19 <- <{p.AddLogic(text)}> */
+		/* 53 Action19 <- <{p.AddCompare(text)}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
 			}
 			return true
 		},
-		/* 54 Action20 <- <{p.AddMatch(text)}> */
+		/* 54 Action20 <- <{p.AddLogic(text)}> */
 		func() bool {
 			{
 				add(ruleAction20, position)
 			}
 			return true
 		},
-		/* 55 Action21 <- <{p.AddMark()}> */
+		/* 55 Action21 <- <{p.AddLogic(text)}> */
 		func() bool {
 			{
 				add(ruleAction21, position)
 			}
 			return true
 		},
-		/* 56 Action22 <- <{p.PopArray()}> */
+		/* 56 Action22 <- <{p.AddMatch(text)}> */
 		func() bool {
 			{
 				add(ruleAction22, position)
@@ -3322,41 +3344,55 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			}
 			return true
 		},
-		/* 59 Action25 <- <{p.AddInteger(text)}> */
+		/* 59 Action25 <- <{p.AddMark()}> */
 		func() bool {
 			{
 				add(ruleAction25, position)
 			}
 			return true
 		},
-		/* 60 Action26 <- <{p.AddBoolean(text)}> */
+		/* 60 Action26 <- <{p.PopArray()}> */
 		func() bool {
 			{
 				add(ruleAction26, position)
 			}
 			return true
 		},
-		/* 61 Action27 <- <{p.AddNull()}> */
+		/* 61 Action27 <- <{p.AddInteger(text)}> */
 		func() bool {
 			{
 				add(ruleAction27, position)
 			}
 			return true
 		},
-		/* 62 Action28 <- <{p.AddString(text)}> */
+		/* 62 Action28 <- <{p.AddBoolean(text)}> */
 		func() bool {
 			{
 				add(ruleAction28, position)
 			}
 			return true
 		},
-		/* 63 Action29 <- <{p.AddString(text)}> */
+		/* 63 Action29 <- <{p.AddNull()}> */
 		func() bool {
 			{
 				add(ruleAction29, position)
 			}
 			return true
 		},
+		/* 64 Action30 <- <{p.AddString(text)}> */
+		func() bool {
+			{
+				add(ruleAction30, position)
+			}
+			return true
+		},
+		/* 65 Action31 <- <{p.AddString(text)}> */
+		func() bool {
+			{
+				add(ruleAction31, position)
+			}
+			return true
+		},
 	}
 	p.rules = _rules
 	return nil
diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..e3c35bf 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -15,6 +15,7 @@ const (
 	OperationNodeType         NodeType = "operation"   // Node.Operation
 	IdentifierNodeType        NodeType = "identifier"  // Node.Name
 	ReferenceNodeType         NodeType = "reference"   // Node.Names
+	JsonReferenceNodeType     NodeType = "json"        // Node.Names
 	PredicatesExpressionType  NodeType = "predicates"  // field is null - Node.Left, Node.Op
 	CompareExpressionType     NodeType = "compare"     // Node.Left, Node.Op, Node.Right
 	LogicExpressionType       NodeType = "logic"       // Node.Left, Node.Op, Node.Right
@@ -82,7 +83,7 @@ func (n Node) IsValue() bool {
 
 func (n Node) IsExpression() bool {
 	switch n.Type {
-	case IdentifierNodeType, ValueNodeType, OperationNodeType, ReferenceNodeType:
+	case IdentifierNodeType, ValueNodeType, OperationNodeType, ReferenceNodeType, JsonReferenceNodeType:
 		return false
 	}
 	return true
@@ -124,6 +125,8 @@ func (n Node) String() string {
 		buf.WriteString(n.Name)
 	case ReferenceNodeType:
 		buf.WriteString(strings.Join(n.Names, "."))
+	case JsonReferenceNodeType:
+		buf.WriteString(strings.Join(n.Names, "->"))
 	case FunctionExpressionType:
 		buf.WriteString(n.Name)
 		for _, v := range n.Params {
@@ -175,6 +178,8 @@ func Build(n *Node) string {
 			buf.WriteString(node.Name)
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
+		case JsonReferenceNodeType:
+			buf.WriteString(strings.Join(node.Names, "->"))
 		case FunctionExpressionType:
 			buf.WriteString(n.Name)
 			buf.WriteRune('(')
diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..5271b1a 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -66,13 +66,21 @@ func (t *Tree) Pop() *Node {
 }
 
 func (t *Tree) PopIdentifierReference() {
+	t.popReference(ReferenceNodeType)
+}
+
+func (t *Tree) PopJsonReference() {
+	t.popReference(JsonReferenceNodeType)
+}
+
+func (t *Tree) popReference(typ NodeType) {
 	nodes := t.popMarked()
 	names := make([]string, 0, len(nodes))
 	for _, node := range nodes {
 		names = append(names, node.Name)
 	}
 	t.Push(&Node{
-		Type:  ReferenceNodeType,
+		Type:  typ,
 		Names: names,
 	})
 }
-- 
2.43.0


From 6d75abf5e2fbe309f6f79ee61a133f1cba217976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:02 +0000
Subject: [PATCH 03/35] fix: drop comments between the words of an operator

A comment inside "not in", "is null" and the like became part of the
operation, and from there part of the generated SQL.
---
 miniquery/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 5271b1a..584444b 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,7 +19,7 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
+	regSpace  = regexp.MustCompile(`(\s|(--|//)[^\r\n]*)+`)
 	normalize = map[string]string{
 		">=": "gte",
 		">":  "gt",
-- 
2.43.0


From 0ae5b1948c83464f5d3f6d9347fc59ac2f3731d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:03 +0000
Subject: [PATCH 04/35] fix: print the name of nested functions

Build wrote the name of the root node for every function call.
---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index e3c35bf..9b48a3e 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -181,7 +181,7 @@ func Build(n *Node) string {
 		case JsonReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "->"))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From 836b9db95c6d1908d5e69d2494568bfca1fb5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:05 +0000
Subject: [PATCH 05/35] fix: print string literals without escapes

The grammar has no escape sequences, so a literal with a quote, a
backslash or a line end was printed as a different literal or as text
that does not parse.
---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index 9b48a3e..20a0586 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -214,7 +214,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// no escape in string literal
+		quote := `"`
+		if strings.Contains(node.Str, quote) {
+			quote = `'`
+		}
+		buf.WriteString(quote)
+		buf.WriteString(node.Str)
+		buf.WriteString(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From 2d5985383f56d95853f76541c142df0531be1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:06 +0000
Subject: [PATCH 06/35] fix: visit function and reference nodes, keep visitor
 defaults

Init worked on a copy, so the default callbacks were lost and walking
panicked. Function calls were sent to the between callback, and
references had no callback at all.
---
 miniquery/visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..f972221 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,12 +18,13 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -33,6 +34,9 @@ func (v Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType, JsonReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
@@ -129,7 +135,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From 2670ebdb09d7077b0d351df03cff2d7e5eb9cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:07 +0000
Subject: [PATCH 07/35] fix: a single blank query joins to the empty query

Blank queries were skipped only when there was more than one.
---
 miniquery/join.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/miniquery/join.go b/miniquery/join.go
index deb0043..789afcb 100644
--- a/miniquery/join.go
+++ b/miniquery/join.go
@@ -7,6 +7,9 @@ func Join(s []string) string {
 	case 0:
 		return ""
 	case 1:
+		if len(strings.TrimSpace(s[0])) == 0 {
+			return ""
+		}
 		return s[0]
 	}
 	sb := strings.Builder{}
-- 
2.43.0


From ba2eb994f5ca845b70aff8597ac8a1f5c44eda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:08 +0000
Subject: [PATCH 08/35] fix: and binds tighter than or

a or b and c was grouped as (a or b) and c in the tree, while the SQL
made from it means a or (b and c).
---
 miniquery/tree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 584444b..7d78ce2 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -134,6 +134,16 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		// and binds tighter than or
+		t.Push(left.Right)
+		t.Push(op)
+		t.Push(right)
+		t.PopLogic()
+		left.Right = t.Pop()
+		t.Push(left)
+		return
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From 0d03abadd607e4e6ab4d8f26b92749e243ae81c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:22 +0000
Subject: [PATCH 09/35] fix: gorm: reject names of fields without a column

Relations and ignored fields have no database name; using one as a
column produced an empty quoted name instead of an error.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..c767e24 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -229,11 +229,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From ec1228e82dcd43ff4699c98b92d0b65f6c967367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:24 +0000
Subject: [PATCH 10/35] fix: gorm: separate function arguments

date(a, 'b') was written without a comma between the arguments.
---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index c767e24..b52fa7f 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 8e570d483c78d61fecd6a3e13e345a928f338cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:25 +0000
Subject: [PATCH 11/35] fix: gorm: check each query of a list before joining
 them

A query such as "a=1) or (1=1" is not valid on its own, but became
valid when joined and turned the conjunction of the list into a
disjunction.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b52fa7f..57870b4 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	// every query must be valid on its own, otherwise it may escape the parentheses added by join
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From e7e06c06f3985f30a8462a003166e2c71277d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:26 +0000
Subject: [PATCH 12/35] fix: gorm: do not store errors and schema in a shared
 session

Applying a query directly to a reusable session wrote the error of an
invalid query into that session, so every later query failed as well.
---
 gormq/miniquery.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 57870b4..9cbb0e6 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,7 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	db = db.Clauses() // do not touch a shared session
 	// every query must be valid on its own, otherwise it may escape the parentheses added by join
 	for _, v := range q.Query {
 		if strings.TrimSpace(v) == "" {
@@ -54,6 +55,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	db = db.Clauses() // do not touch a shared session
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-- 
2.43.0


From e4455e5b4f755932c22c76f3b0deccec954e0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:27 +0000
Subject: [PATCH 13/35] fix: gorm: keep the grouping of nested comparisons

a = b is null was parsed as a = (b is null) but written without
parentheses, which databases read as (a = b) is null.
---
 gormq/miniquery.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 9cbb0e6..77141ff 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -163,6 +163,17 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	addValue := qb.addValue
 	visit := qb.visit
+	operand := func(n *miniquery.Node) (err error) {
+		switch n.Type {
+		case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+			// databases disagree on how these group
+			buf.WriteRune('(')
+			err = visit(n)
+			buf.WriteRune(')')
+			return
+		}
+		return visit(n)
+	}
 
 	switch node.Type {
 	case miniquery.OperationNodeType:
@@ -185,7 +196,7 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.FunctionExpressionType:
 		err = qb.visitFunction(node)
 	case miniquery.BetweenExpressionType:
-		err = visit(node.Left)
+		err = operand(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
 			err = visit(node.Op)
@@ -198,19 +209,20 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 			buf.WriteString(" and ")
 			err = visit(node.Params[1])
 		}
-	case miniquery.PredicatesExpressionType:
-		fallthrough
 	case miniquery.LogicExpressionType:
+		operand = visit
+		fallthrough
+	case miniquery.PredicatesExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		err = operand(node.Left)
 		if err == nil {
 			buf.WriteRune(' ')
 			err = visit(node.Op)
 		}
 		if err == nil && node.Right != nil {
 			buf.WriteRune(' ')
-			err = visit(node.Right)
+			err = operand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From d82a3bfcf007f131348003627fdaf02354c44f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:28 +0000
Subject: [PATCH 14/35] fix: gorm: qualify columns of the model when relations
 are joined

A plain column such as created_at was ambiguous as soon as the query
joined a relation that has a column of the same name.
---
 gormq/miniquery.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 77141ff..4f384c1 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -115,6 +116,17 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	return db
 }
 
+// column of the model, qualified when the statement has joins
+type column string
+
+func (c column) Build(builder clause.Builder) {
+	col := clause.Column{Name: string(c)}
+	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) > 0 {
+		col.Table = clause.CurrentTable
+	}
+	builder.WriteQuoted(col)
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
@@ -140,7 +152,6 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quote
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
@@ -155,7 +166,8 @@ func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote(buf, name)
+	buf.WriteRune('?')
+	qb.addValue(column(name))
 	return
 }
 
-- 
2.43.0


From cff62c3beb098bc12f51acdc1802658d7cf0af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:48 +0000
Subject: [PATCH 15/35] fix: ent: reject date without exactly one argument

date() panicked and every argument after the first was dropped.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..33ef015 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.Errorf("date expects one argument, got %d", len(node.Params))
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 2a5fd7b89f8bca8dea4cec04ff71a2c976135386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:49 +0000
Subject: [PATCH 16/35] fix: ent: report has_edge without a usable schema node

has_edge panicked when the builder had no schema node or a node had no
single id column. A function as the first argument was taken for an edge
of the same name.
---
 entmq/entsql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 33ef015..9d4503b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -100,18 +100,26 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
 
 			tab := mb.Node
+			if tab == nil || tab.ID == nil {
+				err = errors.Errorf("不支持关联: %q", params[0].Name)
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
+			if edge.To == nil || edge.To.ID == nil {
+				err = errors.Errorf("不支持关联: %q", params[0].Name)
+				break
+			}
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
-- 
2.43.0


From c6b77f3566dee04c375d2cc9a43b84db965d320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:50 +0000
Subject: [PATCH 17/35] fix: ent: report errors inside edge conditions

The error of a nested condition was read before the condition was built,
and the wrapping builder drops it, so has_edge(pets, bad()) became an
edge test with an empty condition.
---
 entmq/entsql.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 9d4503b..5d4a91b 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -120,6 +120,8 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不支持关联: %q", params[0].Name)
 				break
 			}
+			// builder drops errors of nested queries
+			var nestErr error
 			switch len(params) {
 			case 1:
 				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
@@ -144,10 +146,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-						err := mb.Err()
-						if err != nil {
-							builder.AddError(err)
-						}
+						nestErr = mb.Err()
 					}))
 				})
 			default:
@@ -159,8 +158,8 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
 				mb.Join(p)
+				err = nestErr
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From c39a6938e2f85a809d0f106fef473a0c41eaea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:51 +0000
Subject: [PATCH 18/35] fix: ent: write edge conditions to the configured
 builder

With SQLBuilder set everything but has_edge was written there.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 5d4a91b..fb03fea 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -110,7 +110,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不支持关联: %q", params[0].Name)
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -158,7 +158,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				mb.Join(p)
+				s.Join(p)
 				err = nestErr
 			}
 		default:
-- 
2.43.0


From 0de5285a90295b5e5c5748d7cff5e4ae358896b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:19 +0000
Subject: [PATCH 19/35] fix: ent: keep the grouping of between and nested
 comparisons

Between is written as two comparisons joined with AND, so `not a between
1 and 3` negated only the first of them. A comparison used as an operand
of another one was written without parentheses.
---
 entmq/entsql.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index fb03fea..d789381 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -48,6 +48,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	if s == nil {
 		s = &mb.Builder
 	}
+	operand := func(n *miniquery.Node) (err error) {
+		switch n.Type {
+		case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+			// databases disagree on how these group
+			s.WriteString("(")
+			err = visit(n)
+			s.WriteString(")")
+			return
+		}
+		return visit(n)
+	}
 	switch node.Type {
 	case miniquery.OperationNodeType:
 		return errors.Errorf("unexpected op node: %q", node)
@@ -83,7 +94,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		if node.Expression.Type == miniquery.BetweenExpressionType {
+			err = operand(node.Expression)
+		} else {
+			err = visit(node.Expression)
+		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -172,7 +187,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			ro = sql.OpGT
 		}
 
-		err = visit(node.Left)
+		err = operand(node.Left)
 		if err == nil {
 			s.WriteOp(lo)
 			err = visit(node.Params[0])
@@ -181,7 +196,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			s.WriteString(" AND ")
 		}
 		if err == nil {
-			err = visit(node.Left)
+			err = operand(node.Left)
 		}
 		if err == nil {
 			s.WriteOp(ro)
@@ -192,12 +207,13 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = operand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
+		operand = visit
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		err = operand(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -216,7 +232,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = visit(node.Right)
+			err = operand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From 1f90bcd17d3d1cde6f8c5fab24f532bc7d7b3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:20 +0000
Subject: [PATCH 20/35] fix: ent: keep a top level or together

ent joins the predicates of a selector with AND and does not wrap this
one, so `x AND a OR b` was built for the query `a or b`.
---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index d789381..6d43d06 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,12 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	root := mb.ast
+	if root.Type == miniquery.LogicExpressionType && root.Op.Operation == miniquery.OpOr {
+		// the predicate is joined with others as is
+		root = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: root}
+	}
+	err := mb.visit(root)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
-- 
2.43.0


From 8ce97541d33671121db40a06bc0d5f0c2a3337bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:57 +0000
Subject: [PATCH 21/35] fix: ent: correlate nested edges with the related row

An edge to the same table is aliased. A has_edge nested in its condition
referred to the table name, which is the row of the outer query.
---
 entmq/entsql.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 6d43d06..e2cc1f1 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -17,6 +17,7 @@ type MiniQLToEntSQLBuilder struct {
 	Node        *sqlgraph.Node
 	QueryString string
 	ast         *miniquery.Node
+	view        *sql.SelectTable // rows of an edge condition, may be aliased
 	SQLBuilder  *sql.Builder
 	Graph       *sqlgraph.Schema
 	sql.Builder
@@ -130,7 +131,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不支持关联: %q", params[0].Name)
 				break
 			}
-			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			view := mb.view
+			if view == nil {
+				view = sql.Table(tab.Table).Schema(tab.Schema)
+			}
+			builder := sql.Dialect(s.Dialect()).Select().From(view)
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -142,26 +147,29 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 			// builder drops errors of nested queries
 			var nestErr error
+			step := sqlgraph.NewStep(
+				sqlgraph.From(tab.Table, tab.ID.Column),
+				sqlgraph.To(edge.To.Table, edge.To.ID.Column),
+				sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+			)
 			switch len(params) {
 			case 1:
-				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
-					sqlgraph.From(tab.Table, tab.ID.Column),
-					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
-					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				))
+				if mb.view == nil {
+					sqlgraph.HasNeighbors(builder, step)
+				} else {
+					// picks an alias that differs from the one of view
+					sqlgraph.HasNeighborsWith(builder, step, func(*sql.Selector) {})
+				}
 			case 2:
 				if !params[1].IsExpression() {
 					err = errors.Errorf("关联条件错误: %q", params[1].String())
 					break
 				}
-				sqlgraph.HasNeighborsWith(builder, sqlgraph.NewStep(
-					sqlgraph.From(tab.Table, tab.ID.Column),
-					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
-					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				), func(selector *sql.Selector) {
+				sqlgraph.HasNeighborsWith(builder, step, func(selector *sql.Selector) {
 					selector.Where(sql.P(func(builder *sql.Builder) {
 						mb := &MiniQLToEntSQLBuilder{
 							ast:                params[1],
+							view:               selector.Table(),
 							Node:               edge.To,
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
-- 
2.43.0


From dea19fd189b3ae265a6ce19baeac5aaf556ca2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:22 +0000
Subject: [PATCH 22/35] fix: entql: do not drop not

The negation was only added when visiting its operand failed.
---
 entmq/entql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..a3e5d3b 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,7 +86,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
+		if err == nil {
 			mb.push(entql.Not(mb.pop().(entql.P)))
 		}
 	case miniquery.FunctionExpressionType:
-- 
2.43.0


From 4ec3b99905f87d004328a94cdf0f0b074d6098ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:23 +0000
Subject: [PATCH 23/35] fix: entql: report functions as unsupported

A function pushed nothing, so building popped from an empty stack or
returned no predicate at all.
---
 entmq/entql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index a3e5d3b..8dda4aa 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -90,8 +90,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			mb.push(entql.Not(mb.pop().(entql.P)))
 		}
 	case miniquery.FunctionExpressionType:
-		// err = qb.visitFunction(node)
-
+		err = errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From ac487ae12b8e0dfe2d6021b273f0c7fa8bc42e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:24 +0000
Subject: [PATCH 24/35] fix: entql: build is null and is not null

Every predicate panicked with TODO.
---
 entmq/entql.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 8dda4aa..d205a3c 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -124,7 +124,24 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		var op entql.Op
+		switch node.Op.Operation {
+		case miniquery.OpIsNull:
+			op = entql.OpEQ
+		case miniquery.OpIsNotNull:
+			op = entql.OpNEQ
+		default:
+			return errors.Errorf("unexpected op %q", node.Op.Operation)
+		}
+		err = visit(node.Left)
+		if err == nil {
+			// same as entql.FieldNil and entql.FieldNotNil
+			mb.push(&entql.BinaryExpr{
+				Op: op,
+				X:  mb.pop(),
+				Y:  (*entql.Value)(nil),
+			})
+		}
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From df91073bae0fa270ca8c4265847eaa84e8427321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:25 +0000
Subject: [PATCH 25/35] fix: entql: report a bare value or field instead of
 panicking

---
 entmq/entql.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index d205a3c..2d6b3a5 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -40,6 +40,16 @@ func (mb *MiniQLToEntQLBuilder) pop() entql.Expr {
 	return v
 }
 
+// popP pops an expression that has to be a predicate
+func (mb *MiniQLToEntQLBuilder) popP() (entql.P, error) {
+	v := mb.pop()
+	p, ok := v.(entql.P)
+	if !ok {
+		return nil, errors.Errorf("not a predicate: %q", v)
+	}
+	return p, nil
+}
+
 func (mb *MiniQLToEntQLBuilder) push(e entql.Expr) {
 	mb.stack = append(mb.stack, e)
 }
@@ -54,7 +64,7 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		p, err = mb.popP()
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -87,7 +97,10 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
 		if err == nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+			var p entql.P
+			if p, err = mb.popP(); err == nil {
+				mb.push(entql.Not(p))
+			}
 		}
 	case miniquery.FunctionExpressionType:
 		err = errors.Errorf("unsupported function: %q", node.Name)
-- 
2.43.0


From 62f55125c956638f11878d2b3fc59aa99588e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:25 +0000
Subject: [PATCH 26/35] fix: entql: skip empty queries when applying

An empty query builds no predicate and Where was called with nil.
---
 entmq/entql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 2d6b3a5..85481ee 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,7 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
-		q.Where(p)
+		if p != nil {
+			q.Where(p)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From da1fbfeb1a2ab24afab2bb84d2b0c47f120a1729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:12 +0000
Subject: [PATCH 27/35] fix: gorm: not in with an empty list excludes nothing

gorm binds an empty list as (NULL), so `a not in []` was never true and
selected no rows.
---
 gormq/miniquery.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 4f384c1..acedc18 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -235,6 +235,15 @@ func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 		if err == nil && node.Right != nil {
 			buf.WriteRune(' ')
 			err = operand(node.Right)
+			if r := node.Right; r.ValueType == miniquery.ArrayValueType && len(r.Array) == 0 {
+				// gorm binds an empty list as (NULL), which is neither true nor false
+				switch node.Op.Operation {
+				case miniquery.OpIn:
+					buf.WriteString(" is true")
+				case miniquery.OpNotIn:
+					buf.WriteString(" is not false")
+				}
+			}
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From 861016cb2368d2034e67baf78f79535ca548cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:13 +0000
Subject: [PATCH 28/35] fix: ent: build valid sql for an empty list

`a in []` was written as IN (), which most databases reject.
---
 entmq/entsql.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index e2cc1f1..ef93935 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -71,6 +71,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	case miniquery.ValueNodeType:
 		if node.ValueType == miniquery.ArrayValueType {
 			s.WriteString("(")
+			if len(node.Array) == 0 {
+				s.WriteString("NULL") // () is not valid in most databases
+			}
 			s.Args(node.Value().([]interface{})...)
 			s.WriteString(")")
 		} else {
@@ -246,6 +249,15 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 		if err == nil {
 			err = operand(node.Right)
+			if r := node.Right; r.ValueType == miniquery.ArrayValueType && len(r.Array) == 0 {
+				// (NULL) is neither true nor false
+				switch node.Op.Operation {
+				case miniquery.OpIn:
+					s.WriteString(" IS TRUE")
+				case miniquery.OpNotIn:
+					s.WriteString(" IS NOT FALSE")
+				}
+			}
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From 3e0be095be689eb5e1f82c88cbadcefd760bde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:36 +0000
Subject: [PATCH 29/35] fix: ent: keep the grouping of compared edge conditions

---
 entmq/entsql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index ef93935..beface3 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -55,8 +55,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s = &mb.Builder
 	}
 	operand := func(n *miniquery.Node) (err error) {
-		switch n.Type {
-		case miniquery.CompareExpressionType, miniquery.PredicatesExpressionType, miniquery.BetweenExpressionType:
+		edge := n.Type == miniquery.FunctionExpressionType && n.Name == "has_edge"
+		switch {
+		case n.Type == miniquery.CompareExpressionType, n.Type == miniquery.PredicatesExpressionType, n.Type == miniquery.BetweenExpressionType, edge:
 			// databases disagree on how these group
 			s.WriteString("(")
 			err = visit(n)
-- 
2.43.0


From 5f755c08b08decd559fad7f09d6dda5279a40047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:42 +0000
Subject: [PATCH 30/35] fix: ent: a predicate can be built more than once

---
 entmq/entsql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index beface3..b55a3d7 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -22,6 +22,7 @@ type MiniQLToEntSQLBuilder struct {
 	Graph       *sqlgraph.Schema
 	sql.Builder
 	DisableTypeCasting bool
+	built              bool
 }
 
 // Query impl sql.Querier
@@ -39,12 +40,21 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		// the predicate is joined with others as is
 		root = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: root}
 	}
+	if mb.built {
+		// a predicate may be built more than once
+		mb.Reset()
+	}
+	mb.built = true
+	total := mb.Total()
+	_, old := mb.Builder.Query()
 	err := mb.visit(root)
+	mb.SetTotal(total)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
 	}
-	return mb.Builder.Query()
+	s, args := mb.Builder.Query()
+	return s, args[len(old):]
 }
 
 //nolint:golint,gocyclo
-- 
2.43.0


From ad322572f1353003015dc41779c3b7f774b78954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:44 +0000
Subject: [PATCH 31/35] fix: ent: keep names without upper case letters as they
 are

A column such as i18n was written as i_18n.
---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index b55a3d7..45fa726 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -97,7 +97,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		s.Ident(xstrings.ToSnakeCase(node.Name))
+		name := node.Name
+		if strings.ToLower(name) != name {
+			name = xstrings.ToSnakeCase(name) // would also split i18n
+		}
+		s.Ident(name)
 		/*
 			switch name {
 			case "owned":
-- 
2.43.0


From 40a303d4aa70942561921f52fa04d7f7bd6159ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:45 +0000
Subject: [PATCH 32/35] fix: ent: arguments with a cast are valid driver values

database/sql refuses an int returned by Value, so every query with an
integer literal failed on drivers that use the default conversion.
---
 entmq/entsql_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..8b247f6 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -38,5 +38,5 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
-	return f.v, nil
+	return driver.DefaultParameterConverter.ConvertValue(f.v)
 }
-- 
2.43.0


From b32e0b4045b5088c42be4a202a70a04c18f9894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:46 +0000
Subject: [PATCH 33/35] fix: ent: cast integers beyond 32 bits to bigint

int has 32 bits in PostgreSQL, larger literals could not be bound.
---
 entmq/entsql_util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index 8b247f6..cb43fa8 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -19,9 +19,12 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 	// https://github.com/jackc/pgx/issues/798 pg 需要 cast 来支持 1=1 -> $1=$2
 	if info.Dialect == dialect.Postgres {
 		var typ string
-		switch f.v.(type) {
+		switch v := f.v.(type) {
 		case int:
 			typ = "int"
+			if int(int32(v)) != v {
+				typ = "bigint"
+			}
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From 3fe0b8c7e00b8cf85a9d561486e6f86347bab4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:31 +0000
Subject: [PATCH 34/35] fix: ent: entql refuses fields and values as operands
 of and, or

ent panics when it evaluates such a predicate.
---
 entmq/entql.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 85481ee..429923e 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -171,6 +171,13 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
+			if node.Type == miniquery.LogicExpressionType {
+				for _, v := range []entql.Expr{left, right} {
+					if !isCondition(v) {
+						return errors.Errorf("not a predicate: %q", v)
+					}
+				}
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
@@ -183,6 +190,16 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// isCondition reports whether and, or can join e, ent panics on other operands
+func isCondition(e entql.Expr) bool {
+	if v, ok := e.(*entql.Value); ok {
+		_, ok = v.V.(bool)
+		return ok
+	}
+	_, ok := e.(entql.P)
+	return ok
+}
+
 var entqlOpMap = map[miniquery.OpType]entql.Op{
 	miniquery.OpAnd:   entql.OpAnd,
 	miniquery.OpOr:    entql.OpOr,
-- 
2.43.0


From 91eab819f4762857715070b8c7e94459bd0d0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:32 +0000
Subject: [PATCH 35/35] fix: ent: entql in and not in with an empty list

The list was written as (), which most databases refuse.
---
 entmq/entql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 429923e..4ddd954 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -178,6 +178,19 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 					}
 				}
 			}
+			if v, ok := right.(*entql.Value); ok && (op == entql.OpIn || op == entql.OpNotIn) {
+				if list, ok := v.V.([]interface{}); ok && len(list) == 0 {
+					// in () is not valid in most databases
+					null := &entql.BinaryExpr{Op: entql.OpEQ, X: left, Y: (*entql.Value)(nil)}
+					notNull := &entql.BinaryExpr{Op: entql.OpNEQ, X: left, Y: (*entql.Value)(nil)}
+					if op == entql.OpIn {
+						mb.push(entql.And(null, notNull))
+					} else {
+						mb.push(entql.Or(null, notNull))
+					}
+					return nil
+				}
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
-- 
2.43.0

