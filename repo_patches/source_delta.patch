From 423e406bc8441764ab7d1dd5cf85b8e46307b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:56 +0000
Subject: [PATCH 01/54] fix: century correction in Date_(y,m,d) (dates from
 2034-03 to 2099-12 and similar were one day off)

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 3c9034ce88313aeb178d764882fccea44c75e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 02/54] fix: date-time clock readings and millisecond counts
 lost up to one unit to truncation

---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..2604293 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // frac is a rounded quotient: allow for the rounding before truncating to whole seconds
+            const int secs = std::min(86399, static_cast<int>(86400 * frac + 1e-6));
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, (secs / 60) % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000 + 1e-4);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From b661049f560fd4475ba536f40c9ccdd7edfd3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 03/54] fix: ACT/365L looped forever on multi-year periods
 without leap day and missed a 29 February period end

---
 dal/time/daybasis.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..644eb34 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -24,15 +24,13 @@ namespace Dal {
         double AnnualDaysL(const Date_& from, const Date_& to) {
             int mm = Date::Month(from.AddDays(1));
             int yy = Date::Year(from.AddDays(1));
-            for (;;) {
-                if (mm > 2)
-                    ++yy;
-                mm = 2;
-                if (Date_(yy, 3, 1) > to)
-                    return 365.0;
-                if (Date::DaysInMonth(yy, 2) == 29)
+            if (mm > 2)
+                ++yy;
+            for (const int last = Date::Year(to); yy <= last; ++yy) {
+                if (Date::DaysInMonth(yy, 2) == 29 && Date_(yy, 2, 29) <= to)
                     return 366.0;
             }
+            return 365.0;
         }
 
         double DaysL(const Date_& end) {
-- 
2.43.0


From bb9adfc7bc26347e7ffa9d3ded24476722424fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 04/54] fix: 30/360 US did not move the 31st to the 30th

---
 dal/time/daybasis.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 644eb34..9c1c4e9 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -55,8 +55,10 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
-                d2 = std::min(d1, d2);
+            if (d2 == 31 && d1 >= 30)
+                d2 = 30;
+            if (d1 == 31)
+                d1 = 30;
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
     } // namespace
-- 
2.43.0


From 86cf615b0c6c3b19a2fcfc62b2d281b9f2b6adc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 05/54] fix: quarterly IMM and CDS increments stopped in the
 current month even outside the quarterly cycle

---
 dal/time/dateincrement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..6f585a1 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
-- 
2.43.0


From a10aa9511e0a15c2b00cf2074116a51f3ab1ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 06/54] fix: schedule generation never ended for a tenor that
 does not advance the date

---
 dal/time/schedules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/time/schedules.cpp b/dal/time/schedules.cpp
index 1f5040c..11699f5 100644
--- a/dal/time/schedules.cpp
+++ b/dal/time/schedules.cpp
@@ -26,6 +26,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->FwdFrom(ret_val[ip - 1]);
                 if (pin_date > maturity)
                     break;
+                REQUIRE(pin_date > ret_val[ip - 1], "schedule tenor does not advance the date");
                 ret_val.push_back(pin_date);
             }
             if (maturity != ret_val.back())
@@ -36,6 +37,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->BackFrom(ret_val[ip - 1]);
                 if (pin_date < start)
                     break;
+                REQUIRE(pin_date < ret_val[ip - 1], "schedule tenor does not advance the date");
                 ret_val.push_back(pin_date);
             }
             if (start != ret_val.back())
-- 
2.43.0


From 9447738742112454cccfdad566b73431bed672f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:05 +0000
Subject: [PATCH 07/54] fix: concurrent registrations of holiday centers could
 lose one of them

---
 dal/time/holidaydata.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/time/holidaydata.cpp b/dal/time/holidaydata.cpp
index 61e697d..d83cd19 100644
--- a/dal/time/holidaydata.cpp
+++ b/dal/time/holidaydata.cpp
@@ -50,6 +50,8 @@ namespace Dal {
     } // namespace
 
     void Holidays::AddCenter(const String_& city, const Vector_<Date_>& holidays, const Vector_<Date_>& workWeekends) {
+        static std::mutex mutex;
+        std::lock_guard<std::mutex> l(mutex);
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         REQUIRE(ContainsNoWeekends(holidays), "Holidays should not contain weekends");
         REQUIRE(ContainsOnlyWeekends(workWeekends), "Can only weekends in special working days");
@@ -62,8 +64,6 @@ namespace Dal {
         temp.centerIndex_[city] = static_cast<int>(temp.holidays_.size());
         temp.holidays_.push_back(Handle_(std::make_shared<const HolidayCenterData_>(city, holidays, workWeekends)));
 
-        static std::mutex mutex;
-        std::lock_guard<std::mutex> l(mutex);
         TheHolidayData().Swap(&temp);
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
     }
-- 
2.43.0


From f8503820b323f70fe48254808020acca9fbf9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 08/54] fix: script parser no longer drops tokens, reads past
 the end or modifies constants

Unknown characters, leftover tokens inside parentheses, trailing commas and
surplus DCF arguments were silently ignored, a function name or comparison at
the end of the text was read past the token list, '^' was accepted as a
variable name and assignments to macro constants wrote out of bounds.
---
 dal/script/parser.cpp | 36 ++++++++++++++++++++++++------------
 dal/script/parser.hpp |  1 +
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..860774d 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -129,7 +129,9 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        const char first = (*cur)[0];
+        REQUIRE2((first >= 'A' && first <= 'Z') || (first >= 'a' && first <= 'z') || first == '_',
+                 String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
@@ -243,8 +245,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
-            const char c = (*cur)[0];
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
             eps = String::ToDouble(*cur);
@@ -254,7 +255,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -265,9 +266,8 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
+        REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
         ++cur;
-        while (cur != closeIt && (*cur)[0] == ',')
-            ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
 
         String_ start_date = "";
@@ -275,9 +275,8 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
+        REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
         ++cur;
-        while (cur != closeIt && (*cur)[0] == ',')
-            ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
 
         String_ end_date = "";
@@ -285,6 +284,7 @@ namespace Dal::Script {
             end_date += *cur;
             ++cur;
         }
+        REQUIRE2(cur == closeIt, "too many arguments for `DCF", ScriptError_);
 
         cur = ++closeIt;
         // TODO: we only implement normal day count fraction convention and leave `context` as empty
@@ -292,7 +292,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
@@ -300,9 +300,10 @@ namespace Dal::Script {
         ++cur;
         while (cur != closeIt) {
             args.push_back(ParseExpr(cur, end));
-            if ((*cur)[0] == ',')
+            if ((*cur)[0] == ',') {
                 ++cur;
-            else if (cur != closeIt)
+                REQUIRE2(cur != closeIt, "missing argument after comma", ScriptError_);
+            } else if (cur != closeIt)
                 THROW2("Arguments must be separated by commas", ScriptError_);
         }
         cur = ++closeIt;
@@ -349,6 +350,7 @@ namespace Dal::Script {
             return ParseIf(cur, end);
         auto lhs = ParseVar(cur);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+        REQUIRE2(dynamic_cast<const NodeVar_*>(lhs.get()) != nullptr, "a constant can't be modified by a statement", ScriptError_);
         if (*cur == "=")
             return ParseAssign(cur, end, lhs);
         else if (*cur == "PAYS") return ParsePays(cur, end, lhs);
@@ -358,8 +360,18 @@ namespace Dal::Script {
     Vector_<String_> Tokenize(const String_& str) {
         static const std::regex r(R"([\w.]+|[/-]|,|;|:|[\(\)\+\*\^]|!=|>=|<=|[<>=])");
         Vector_<String_> v;
-        for (std::regex_iterator<String_::const_iterator> it(str.begin(), str.end(), r), end; it != end; ++it)
+        auto pos = str.begin();
+        // only white space may lie between the tokens
+        auto requireBlank = [&pos](String_::const_iterator upTo) {
+            for (; pos != upTo; ++pos)
+                REQUIRE2(std::isspace(static_cast<unsigned char>(*pos)), String_("unexpected character ") + *pos, ScriptError_);
+        };
+        for (std::regex_iterator<String_::const_iterator> it(str.begin(), str.end(), r), end; it != end; ++it) {
+            requireBlank((*it)[0].first);
+            pos = (*it)[0].second;
             v.push_back(String_((*it)[0]));
+        }
+        requireBlank(str.end());
         return v;
     }
 
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..5c3fc05 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -49,6 +49,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, "unexpected token before the closing )", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
-- 
2.43.0


From 370d571af9ba9e1e2b45175309cf0095c4db4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:29 +0000
Subject: [PATCH 09/54] fix: MIN and MAX use all their arguments

---
 dal/script/parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 860774d..12b8c6b 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -112,6 +112,14 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+
+                // Evaluation works on pairs, hence MIN and MAX of more arguments are nested
+                auto args = std::move(top->arguments_);
+                const size_t nPair = std::min<size_t>(2, args.size());
+                top->arguments_.Resize(nPair);
+                std::move(args.begin(), args.begin() + nPair, top->arguments_.begin());
+                for (size_t i = nPair; i < args.size(); ++i)
+                    top = func == "MIN" ? MakeBaseBinary<NodeMin_>(top, args[i]) : MakeBaseBinary<NodeMax_>(top, args[i]);
             }
             //	Return
             return top;
-- 
2.43.0


From 2199a64868be86676ad91a9ba0c7e08ade42a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:10 +0000
Subject: [PATCH 10/54] fix: a moved script evaluator keeps its initial
 variable values

---
 dal/script/visitor/evaluator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..cfef4f4 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -55,11 +55,12 @@ namespace Dal::Script {
             constVariables_ = rhs.constVariables_;
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
+            curEvt_ = rhs.curEvt_;
             return *this;
         }
 
         EvaluatorBase_(EvaluatorBase_&& rhs) noexcept
-            : variables_(std::move(rhs.variables_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
+            : variables_(std::move(rhs.variables_)), variablesInit_(std::move(rhs.variablesInit_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
         }
@@ -69,6 +70,7 @@ namespace Dal::Script {
             constVariables_ = std::move(rhs.constVariables_);
             bStack_ = std::move(rhs.bStack_);
             scenario_ = rhs.scenario_;
+            curEvt_ = rhs.curEvt_;
             return *this;
         }
 
-- 
2.43.0


From 95298c0d0f9c4767dbb81b9d848eff5c412746fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:05 +0000
Subject: [PATCH 11/54] fix: script evaluation stacks never overflow their
 fixed storage

Every past PAYS left its amount on the evaluation stack, and nothing stopped a
deeply nested expression from pushing beyond the 128 entries.
---
 dal/math/stacks.hpp                  | 6 +++++-
 dal/script/visitor/pastevaluator.hpp | 6 ++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..2505780 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <iterator>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
     template <class E_, size_t DefaultSize> class Stack_ {
@@ -134,7 +135,10 @@ namespace Dal {
 
     public:
         template <typename T2>
-        FORCE_INLINE void Push(T2&& value) { data_[++sp_] = T(std::forward<T2>(value)); }
+        FORCE_INLINE void Push(T2&& value) {
+            REQUIRE(sp_ + 1 < static_cast<int>(SIZE), "stack overflow");
+            data_[++sp_] = T(std::forward<T2>(value));
+        }
 
         FORCE_INLINE T& Top() { return data_[sp_]; }
 
diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..65dd0a5 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -17,13 +17,11 @@ namespace Dal::Script {
             : Base(variables, const_variables) {}
 
         using Base::Visit;
-        using Base::VisitNode;
         using Base::variables_;
         using Base::dStack_;
 
-        FORCE_INLINE void Visit(const NodePays_& node) {
-            //	Visit the RHS expression
-            VisitNode(*node.arguments_[1]);
+        FORCE_INLINE void Visit(const NodePays_&) {
+            //	Past payments don't count any more; nothing to leave on the stack
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From 43a84ae79651aba4985d904b864e7f11977527cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:05 +0000
Subject: [PATCH 12/54] fix: compiled IF/ELSE keeps its condition stack
 balanced and folds >= exactly

---
 dal/script/visitor/compiler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..f1f88a5 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -237,7 +237,7 @@ namespace Dal::Script {
             VisitCondition<Sup>(node, [](double x) { return x > 0.0; });
         }
         void Visit(const NodeSupEqual_& node) {
-            VisitCondition<SupEqual>(node, [](double x) { return x > -Dal::EPSILON; });
+            VisitCondition<SupEqual>(node, [](double x) { return x >= 0.0; });
         }
 
         //  And/Or/Not
@@ -512,14 +512,14 @@ namespace Dal::Script {
                 bStack.Pop();
                 break;
             case IfElse:
-                if (!bStack.Top()) {
+                // the nested call uses the same stacks: the condition must be off them before
+                if (!bStack.TopAndPop()) {
                     i = nodeStream[++i];
                 } else {
                     //  Cannot avoid nested call here
                     EvalCompiled(nodeStream, constStream, dataStream, scenario, state, i + 3, nodeStream[i + 1]);
                     i = nodeStream[i + 2];
                 }
-                bStack.Pop();
                 break;
             case Equal:
                 bStack.Push(dStack.TopAndPop() == 0);
-- 
2.43.0


From 3a32c6f15c505b7ae7f5f7bbe3795745a1422a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:14 +0000
Subject: [PATCH 13/54] fix: compiled scripts keep the sensitivities to macro
 constants

---
 dal/script/node.hpp             | 3 ++-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..9c9a785 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,8 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // not folded by the compiler: sensitivities to it may be requested
+            ExprNode_::isConst_ = false;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index f1f88a5..23a30de 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From 5a60cd7a3f341689e7c2132ce6afacd728df4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:14 +0000
Subject: [PATCH 14/54] fix: fuzzy evaluation negates conditions

The visit of the negation was misnamed, so != was evaluated by the crisp base
class on another stack.
---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From 09c79109eabdcee4f8f395fb14faa33794906214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:13 +0000
Subject: [PATCH 15/54] fix: fuzzy comparisons without smoothing are crisp
 instead of 0/0

---
 dal/script/visitor/fuzzy.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index eff808c..097d5ba 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -38,6 +38,9 @@ namespace Dal::Script {
 
         if (x < -halfEps || x > halfEps)
             return T_(0.0);
+        // no smoothing
+        if (halfEps <= 0.0)
+            return T_(1.0);
         return (halfEps - fabs(x)) / halfEps;
     }
 
@@ -212,7 +215,7 @@ namespace Dal::Script {
 
         // Inequality
         // For visiting superior and supEqual
-        void VisitComp(const CompNode_& node) {
+        void VisitComp(const CompNode_& node, double at_zero) {
             //	Evaluate expression to be compared to 0
             VisitNode(*node.arguments_[0]);
             const T expr = dStack_.TopAndPop();
@@ -230,13 +233,16 @@ namespace Dal::Script {
                 //	Effective epsilon: take default unless overwritten on the node
                 const double eps = node.eps_ < 0 ? defEps_ : node.eps_;
 
-                //	Call Spread
-                fuzzyStack_.Push(CSpr(expr, eps));
+                //	Call Spread, or the crisp comparison without smoothing
+                if (eps == 0.0 && expr == 0.0)
+                    fuzzyStack_.Push(at_zero);
+                else
+                    fuzzyStack_.Push(CSpr(expr, eps));
             }
         }
 
-        FORCE_INLINE void Visit(const NodeSup_& node) { VisitComp(node); }
-        FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
+        FORCE_INLINE void Visit(const NodeSup_& node) { VisitComp(node, 0.0); }
+        FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node, 1.0); }
 
         // Negation
         FORCE_INLINE void Visit(const NodeNot_& node) {
-- 
2.43.0


From ba2585eef52b821895fd67badc28dd8d22091603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:03 +0000
Subject: [PATCH 16/54] fix: domain analysis covers negative logarithms and
 possibly zero divisors

---
 dal/script/visitor/domain.hpp     | 3 +++
 dal/script/visitor/domainproc.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 932ed47..45b8040 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -732,6 +732,9 @@ namespace Dal::Script {
 
             for (auto& i : intervals_) {
                 for (auto& j : rhs.intervals_) {
+                    // 0 is only one of the possible divisors: nothing is known of the result
+                    if (j.IsZero() && rhs.intervals_.size() > 1)
+                        return Domain_(Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
                     res.AddInterval(i / j);
                 }
             }
diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..7dafa89 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From 4f1c048692d6f1dcedbe8816b1ace70f9e53f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:05 +0000
Subject: [PATCH 17/54] fix: preprocessing a script product again leaves it the
 same

The time line was appended to, pruned conditions underflowed the domain stack
and the variables were indexed anew on the pruned tree.
---
 dal/script/event.cpp              | 6 +++++-
 dal/script/visitor/domainproc.hpp | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dal/script/event.cpp b/dal/script/event.cpp
index b1ef00c..a76928a 100644
--- a/dal/script/event.cpp
+++ b/dal/script/event.cpp
@@ -133,7 +133,9 @@ namespace Dal::Script {
 
     //	All preprocessing
     size_t ScriptProduct_::PreProcess(bool fuzzy, bool skip_domain) {
-        IndexVariables();
+        // the tree may have been pruned since: its variables keep their indices
+        if (variables_.empty())
+            IndexVariables();
         variableValues_ = PastEvaluate();
 
         size_t maxNestedIfs = 0;
@@ -146,6 +148,8 @@ namespace Dal::Script {
         // generate time line and definition
         // TODO: more specific data settings
         const auto evaluationDate = Global::Dates_::EvaluationDate();
+        timeLine_.clear();
+        defLine_.clear();
         for (auto& date : eventDates_) {
             const double ttm = (date - evaluationDate) / 365.0;
             timeLine_.emplace_back(ttm);
diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 7dafa89..efabd3e 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -316,6 +316,9 @@ namespace Dal::Script {
             }
         }
 
+        void Visit(NodeTrue_&) { condStack_.Push(Value_::AlwaysTrue); }
+        void Visit(NodeFalse_&) { condStack_.Push(Value_::AlwaysFalse); }
+
         // Instructions
         void Visit(NodeIf_& node) {
             // Last "if true" statement index
-- 
2.43.0


From 35374a2400a04a41032996b1db80108e3fe5a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:23 +0000
Subject: [PATCH 18/54] fix: script schedules reject incomplete or trailing
 text and take FIXING in any position

---
 dal/script/event/schedule.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..e6401a3 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -24,16 +24,19 @@ namespace Dal {
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
 
-            for (; i < tokens.size() - 2; ++i) {
-                REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
+            const int n = static_cast<int>(tokens.size());
+            for (; i < n; ++i) {
+                REQUIRE2(i + 2 < n && tokens[i + 1] == ":", "schedule parameter name not followed by `:` and a value", ScriptError_);
 
                 if (tokens[i] == "START") {
+                    REQUIRE2(i + 6 < n, "incomplete date in schedule", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
                     startDate = Date::FromString(dt_str);
                     i += 6;
                 } else if (tokens[i] == "END") {
+                    REQUIRE2(i + 6 < n, "incomplete date in schedule", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
@@ -55,10 +58,12 @@ namespace Dal {
                         fixAtEnd = true;
                     else
                         THROW("unknown token for fixing");
+                    i += 2;
                 } else
                     THROW2("unknown token", ScriptError_);
             }
 
+            REQUIRE2(startDate.IsValid() && endDate.IsValid() && tenor, "schedule needs START, END and FREQ", ScriptError_);
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
                                                    holidays,
-- 
2.43.0


From 5e8a9f6f49ed5d3c620651a8b482f12596309595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:28 +0000
Subject: [PATCH 19/54] fix: a fuzzy evaluator can be moved

---
 dal/script/visitor/fuzzy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index 097d5ba..71f1ffb 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -119,13 +119,13 @@ namespace Dal::Script {
         }
 
         FuzzyEvaluator_(FuzzyEvaluator_&& rhs) noexcept
-            : Base(move(rhs)), defEps_(rhs.defEps_), varStore0_(move(rhs.varStore0_)), varStore1_(move(rhs.varStore1_)),
+            : Base(std::move(rhs)), defEps_(rhs.defEps_), varStore0_(std::move(rhs.varStore0_)), varStore1_(std::move(rhs.varStore1_)),
               nestedIfLvl_(0) {}
         FuzzyEvaluator_& operator = (FuzzyEvaluator_&& rhs) noexcept {
-            Base::operator=(move(rhs));
+            Base::operator=(std::move(rhs));
             defEps_ = rhs.defEps_;
-            varStore0_ = move(rhs.varStore0_);
-            varStore1_ = move(rhs.varStore1_);
+            varStore0_ = std::move(rhs.varStore0_);
+            varStore1_ = std::move(rhs.varStore1_);
             nestedIfLvl_ = 0;
             return *this;
         }
-- 
2.43.0


From eb16ba409d72f1a7c89d71c82ee83f070c01495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:39 +0000
Subject: [PATCH 20/54] fix: domain analysis treats undefined function values
 as unknown

---
 dal/script/visitor/domain.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 45b8040..c81176e 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -11,6 +11,7 @@
 #include <sstream>
 #include <functional>
 #include <array>
+#include <cmath>
 #include <algorithm>
 #include <memory>
 #include <set>
@@ -804,7 +805,11 @@ namespace Dal::Script {
             // Singletons, apply func
             for (auto v : vec) {
                 try {
-                    res.AddSingleton(func(v));
+                    const double val = func(v);
+                    // undefined there: nothing more is known of the result
+                    if (std::isnan(val))
+                        return Domain_(func_domain);
+                    res.AddSingleton(val);
                 } catch (const std::domain_error&) {
                     THROW("Domain_ error on function applied to IsSingleton");
                 }
@@ -825,7 +830,11 @@ namespace Dal::Script {
             for (auto v1 : vec1) {
                 for (auto v2 : vec2) {
                     try {
-                        res.AddSingleton(func(v1, v2));
+                        const double val = func(v1, v2);
+                        // undefined there: nothing more is known of the result
+                        if (std::isnan(val))
+                            return Domain_(func_domain);
+                        res.AddSingleton(val);
                     } catch (const std::domain_error&) {
                         THROW("Domain_ error on function applied to IsSingleton");
                     }
-- 
2.43.0


From 156c407dbc62fabe0146e10cc31c2b288ce68bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:07 +0000
Subject: [PATCH 21/54] fix: domain analysis treats infinite function values as
 unknown

---
 dal/script/visitor/domain.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index c81176e..6663147 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -806,8 +806,8 @@ namespace Dal::Script {
             for (auto v : vec) {
                 try {
                     const double val = func(v);
-                    // undefined there: nothing more is known of the result
-                    if (std::isnan(val))
+                    // undefined or infinite there: nothing more is known of the result
+                    if (!std::isfinite(val))
                         return Domain_(func_domain);
                     res.AddSingleton(val);
                 } catch (const std::domain_error&) {
@@ -831,8 +831,8 @@ namespace Dal::Script {
                 for (auto v2 : vec2) {
                     try {
                         const double val = func(v1, v2);
-                        // undefined there: nothing more is known of the result
-                        if (std::isnan(val))
+                        // undefined or infinite there: nothing more is known of the result
+                        if (!std::isfinite(val))
                             return Domain_(func_domain);
                         res.AddSingleton(val);
                     } catch (const std::domain_error&) {
-- 
2.43.0


From 4b418e0e2a515bbb8716a7764ae9dc64789ab0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:44 +0000
Subject: [PATCH 22/54] fix: domain analysis treats values beyond its infinity
 as unknown

---
 dal/script/visitor/domain.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 6663147..c71afaa 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -807,7 +807,7 @@ namespace Dal::Script {
                 try {
                     const double val = func(v);
                     // undefined or infinite there: nothing more is known of the result
-                    if (!std::isfinite(val))
+                    if (!(std::fabs(val) < Dal::INF))
                         return Domain_(func_domain);
                     res.AddSingleton(val);
                 } catch (const std::domain_error&) {
@@ -832,7 +832,7 @@ namespace Dal::Script {
                     try {
                         const double val = func(v1, v2);
                         // undefined or infinite there: nothing more is known of the result
-                        if (!std::isfinite(val))
+                        if (!(std::fabs(val) < Dal::INF))
                             return Domain_(func_domain);
                         res.AddSingleton(val);
                     } catch (const std::domain_error&) {
-- 
2.43.0


From b659403cd53a0a8708cf04707ead8fcab44017cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:39 +0000
Subject: [PATCH 23/54] fix: random generators can be skipped to any path,
 clones keep their precision

---
 dal/math/random/pseudorandom.cpp | 48 ++++++++++++++++++++++++--------
 dal/math/random/pseudorandom.hpp |  5 ++++
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..6b65818 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,7 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        skippedTo_ = 0;
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +37,25 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        // normal vectors have no antithetic mirror images: each consumes its own uniforms
+        if (skippedTo_ > 0) {
+            Position(skippedTo_ * NDim());
+            skippedTo_ = 0;
+            anti_ = false;
+        }
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_paths) {
+        Position(n_paths / 2 * NDim());
+        anti_ = false;
+        if (n_paths & 1) {
+            Vector_<> first(NDim());
+            FillUniform(&first);
+        }
+        skippedTo_ = n_paths;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +85,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
+                irl_ = 0;
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -81,9 +105,14 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size(), precise_); }
 
-            void SkipTo(size_t n_paths) override {}
+        protected:
+            void Position(size_t n_points) override {
+                Reset();
+                for (size_t i = 0; i < n_points; ++i)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -137,18 +166,13 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size(), precise_);
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+        protected:
+            void Position(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..43e3b5a 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,13 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        // the path number of a SkipTo which no vector has been drawn from yet
+        size_t skippedTo_ = 0;
 
     protected:
         Vector_<> cache_;
+        // Move to the state after `n_points` uniforms of a fresh generator
+        virtual void Position(size_t n_points) = 0;
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +45,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_paths) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From b1925a2a3d5d337557f1f1bd30e748d4a899b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 24/54] fix: clearing and resetting the concurrent queue take
 its lock

---
 dal/concurrency/concurrentqueue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/concurrentqueue.hpp b/dal/concurrency/concurrentqueue.hpp
index 6d4351e..1813b59 100644
--- a/dal/concurrency/concurrentqueue.hpp
+++ b/dal/concurrency/concurrentqueue.hpp
@@ -69,10 +69,14 @@ namespace Dal {
             cv_.notify_all();
         }
 
-        void ResetInterrupt() { interrupt_ = false; }
+        void ResetInterrupt() {
+            std::lock_guard<std::mutex> lk(mutex_);
+            interrupt_ = false;
+        }
 
         void Clear() {
             std::queue<T_> empty;
+            std::lock_guard<std::mutex> lk(mutex_);
             std::swap(queue_, empty);
         }
     };
-- 
2.43.0


From 1d88f6eebdd98332c255a703917472306fe4c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 25/54] fix: the thread pool's stop flag is atomic

---
 dal/concurrency/threadpool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..ffaa7a4 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -13,6 +13,7 @@
 #pragma once
 
 #include <dal/concurrency/concurrentqueue.hpp>
+#include <atomic>
 #include <future>
 #include <thread>
 
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From f6dc0a793985c5c03abae1396ce86ecc7ba1f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 26/54] fix: a failed task fails the simulation

---
 dal/script/simulation.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..2eeda39 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -151,6 +151,10 @@ namespace Dal::Script {
         for (auto& future : futures)
             pool->ActiveWait(future);
 
+        // a failed task fails the simulation
+        for (auto& future : futures)
+            future.get();
+
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
         return results;
@@ -257,6 +261,11 @@ namespace Dal::Script {
             pool->ActiveWait(future);
 
         Number_::SetTape(*mainThreadPtr);
+
+        // a failed task fails the simulation
+        for (auto& future : futures)
+            future.get();
+
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From 42eb2fee80197f38c127a15db5964f5b788c9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 27/54] fix: block storage can be iterated when its last block
 is full, marks start at the beginning

---
 dal/math/aad/blocklist.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..a38a7b1 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -53,6 +53,13 @@ namespace Dal::AAD {
             }
         }
 
+        // leaves a full block at once: iteration reaches the next free space through the block that holds it
+        void Advance(size_t n) {
+            nextSpace_ += n;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+        }
+
     public:
         struct BlockPosition_ {
             iterator currBlock_;
@@ -62,11 +69,15 @@ namespace Dal::AAD {
             BlockPosition_(iterator curr_block, block_iter next_space): currBlock_(curr_block), nextSpace_(next_space) {}
         };
 
-        BlockList_() { NewBlock(); }
+        BlockList_() {
+            NewBlock();
+            SetMark();
+        }
 
         void Clear() {
             data_.clear();
             NewBlock();
+            SetMark();
         }
 
         void Rewind() {
@@ -91,7 +102,7 @@ namespace Dal::AAD {
             if (nextSpace_ == lastSpace_)
                 NextBlock();
             T_* emplaced = new (&*nextSpace_) T_(std::forward<Args_>(args)...);
-            ++nextSpace_;
+            Advance(1);
             return emplaced;
         }
 
@@ -99,7 +110,7 @@ namespace Dal::AAD {
             if (nextSpace_ == lastSpace_)
                 NextBlock();
             auto old_next = nextSpace_;
-            ++nextSpace_;
+            Advance(1);
             return &*old_next;
         }
 
@@ -107,7 +118,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(N_))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += N_;
+            Advance(N_);
             return &*old_next;
         }
 
@@ -115,7 +126,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(n))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += n;
+            Advance(n);
             return &*old_next;
         }
 
-- 
2.43.0


From 28a2972406e941a7caea4c3c3cb95822835d805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 28/54] fix: small adjoints are propagated

---
 dal/math/aad/node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/node.hpp b/dal/math/aad/node.hpp
index 5abde05..60a5414 100644
--- a/dal/math/aad/node.hpp
+++ b/dal/math/aad/node.hpp
@@ -38,7 +38,7 @@ namespace Dal::AAD {
         double& Adjoint(size_t n) { return pAdjoints_[n]; }
 
         void PropagateOne() {
-            if (!n_ || fabs(adjoint_) <= Dal::EPSILON)
+            if (!n_ || adjoint_ == 0.0)
                 return;
 
             for (size_t i = 0; i < n_; ++i)
@@ -46,7 +46,7 @@ namespace Dal::AAD {
         }
 
         void PropagateAll() {
-            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return fabs(x) <= Dal::EPSILON; }))
+            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return x == 0.0; }))
                 return;
 
             for (size_t i = 0; i < n_; ++i) {
-- 
2.43.0


From c518d5b0f07d154fd25f6e1548e609ad64a4e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 29/54] fix: results recorded before the mark back-propagate,
 and so does an empty part before it

---
 dal/math/aad/expr.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..b4dc475 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -549,11 +549,21 @@ namespace Dal::AAD {
         }
 
         void PropagateToMark() {
-            PropagateAdjoints(tape_->MarkIt());
+            const auto mark = tape_->MarkIt();
+            for (auto it = tape_->End(); it != mark;) {
+                --it;
+                if (&*it == node_) {
+                    PropagateAdjoints(mark);
+                    return;
+                }
+            }
+            // recorded before the mark: nothing after the mark depends on other entries for it
+            Adjoint() += 1.0;
         }
 
         static void PropagateMarkToStart() {
-            PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
+            if (tape_->MarkIt() != tape_->Begin())
+                PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
         }
 
         static void PropagateAdjointsMulti(Tape_::Iterator_ propagate_from, Tape_::Iterator_ propagate_to) {
-- 
2.43.0


From a332d76a1dcb4aac3f2736f050a76f6f29e5f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 30/54] fix: derivatives of powers of zero

---
 dal/math/aad/expr.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index b4dc475..8b990ec 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -72,12 +72,19 @@ namespace Dal::AAD {
         FORCE_INLINE static double RightDerivative(double l, double r, double v) { return -l / r / r; }
     };
 
+    // derivatives of v = l ^ r, also at a base of zero
+    FORCE_INLINE double PowBaseDerivative(double l, double r, double v) {
+        return l != 0.0 ? r * v / l : (r == 0.0 ? 0.0 : r * std::pow(l, r - 1.0));
+    }
+
+    FORCE_INLINE double PowExponentDerivative(double l, double v) { return v == 0.0 ? 0.0 : std::log(l) * v; }
+
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r * v / l; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return PowBaseDerivative(l, r, v); }
 
-        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return std::log(l) * v; }
+        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return PowExponentDerivative(l, v); }
     };
 
     struct OPMax_ {
@@ -244,13 +251,13 @@ namespace Dal::AAD {
     struct OPPowDL_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(d, r); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return std::log(d) * v; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return PowExponentDerivative(d, v); }
     };
 
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return d * v / r; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return PowBaseDerivative(r, d, v); }
     };
 
     struct OPMaxD_ {
-- 
2.43.0


From 1d83b38cd59974a6c003ed0e627734650d9cfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:27 +0000
Subject: [PATCH 31/54] fix: the repository replaces by whole names, in one
 step

---
 dal/storage/_repository.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..53b8944 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,36 +28,33 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
-        void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
-            auto pLow = TheObjects().lower_bound(start);
-            auto pHigh = pLow;
-            while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
-                ++pHigh;
-            TheObjects().erase(pLow, pHigh);
+        // call with the lock held; a name may contain the separator, so it has to be compared as a whole
+        template <class P_> void EraseByStart(const String_& start, const P_& is_same) {
+            auto po = TheObjects().lower_bound(start);
+            while (po != TheObjects().end() && po->first.substr(0, start.size()) == start)
+                po = is_same(*po->second) ? TheObjects().erase(po) : std::next(po);
         }
     } // namespace
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
         const String_ untickered = BaseTag(*s);
+        LOCK_OBJECTS;
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered); // squash anything with this name
+            EraseByStart(untickered, [&](const Storable_& o) { return o.type_ == s->type_ && o.name_ == s->name_; }); // squash anything with this name
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(TypeTag(*s)); // squash anything with this type
+            EraseByStart(TypeTag(*s), [&](const Storable_& o) { return o.type_ == s->type_; }); // squash anything with this type
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
         const String_ retval = untickered + Uniquifier(*s);
         TheObjects().insert(make_pair(retval, s));
         return retval;
-- 
2.43.0


From b1cfca30f38d7f8cae0e4939d0ab6884c18f9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:27 +0000
Subject: [PATCH 32/54] fix: setting a global date takes the lock its readers
 take

---
 dal/storage/globals.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..89be3f7 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
-- 
2.43.0


From 0d4596a3e24e3a7ef1d4ab187787e53789014c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 33/54] fix: numbers written as text keep all their digits, and
 long lines are read whole

---
 dal/string/strings.cpp | 14 +++++++++++++-
 dal/utilities/file.cpp |  7 ++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..e190902 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -3,6 +3,9 @@
 //
 
 #include <bitset>
+#include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 #include <dal/platform/strict.hpp>
 #include <dal/string/strings.hpp>
@@ -46,7 +49,16 @@ namespace Dal::String {
         return val;
     }
 
-    String_ FromDouble(double src) { return String_(std::to_string(src)); }
+    String_ FromDouble(double src) {
+        String_ ret_val(std::to_string(src));
+        if (std::isfinite(src) && std::strtod(ret_val.c_str(), nullptr) != src) {
+            // fixed-point notation would lose digits
+            char buf[32];
+            std::snprintf(buf, sizeof(buf), "%.17g", src);
+            ret_val = buf;
+        }
+        return ret_val;
+    }
 
     String_ FromInt(int src) { return String_(std::to_string(src)); }
     String_ FromBool(bool src) {
diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..cd8763b 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <string>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/utilities/file.hpp>
@@ -13,9 +14,9 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
-            dst->emplace_back(buf);
+        std::string line;
+        while (std::getline(src, line))
+            dst->emplace_back(line);
         src.close();
     }
 
-- 
2.43.0


From a078448e03b04f17ba095ff62df8409e532ec827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 34/54] fix: archives bring back what was written

Text is escaped, booleans and integers are readable again, empty values, blank columns and
keyless bags survive, the table width no longer doubles with every field, untagged objects are
not merged, and malformed or incomplete documents are rejected.
---
 dal/storage/archive.hpp |  3 ++
 dal/storage/bag.cpp     |  3 +-
 dal/storage/json.cpp    | 70 ++++++++++++++++++++++++++++++-----------
 dal/storage/splat.cpp   | 63 +++++++++++++++++++++++++------------
 4 files changed, 99 insertions(+), 40 deletions(-)

diff --git a/dal/storage/archive.hpp b/dal/storage/archive.hpp
index 95bfa6f..c341692 100644
--- a/dal/storage/archive.hpp
+++ b/dal/storage/archive.hpp
@@ -28,6 +28,8 @@ namespace Dal::Archive {
         Store_& Element(int index); // just converts to String_ name and gets a child
 
         virtual Store_& operator=(double val) = 0;
+        virtual Store_& operator=(int val) = 0;
+        virtual Store_& operator=(bool val) = 0;
         virtual Store_& operator=(const String_& val) = 0;
         virtual Store_& operator=(const Date_& val) = 0;
         virtual Store_& operator=(const DateTime_& val) = 0;
@@ -98,6 +100,7 @@ namespace Dal::Archive {
             Handle_<Storable_> object = Extract(src, share_);
             NOTICE2("Expected type", type_);
             Handle_<T_> ret_val = handle_cast<T_>(object);
+            REQUIRE(ret_val || !object, "Object has the wrong type");
             return ret_val;
         }
     };
diff --git a/dal/storage/bag.cpp b/dal/storage/bag.cpp
index 2fa19b5..87c9625 100644
--- a/dal/storage/bag.cpp
+++ b/dal/storage/bag.cpp
@@ -15,7 +15,8 @@ namespace Dal {
         #include <dal/auto/MG_Bag_Read.inc>
 
         Storable_* Bag::Reader_::Build() const {
-            return new Bag_(name_, ZipToMultimap(keys_, contents_));
+            // keys are optional; objects without keys are held under a blank one
+            return new Bag_(name_, ZipToMultimap(keys_.empty() ? Vector_<String_>(contents_.size()) : keys_, contents_));
         }
     }
 
diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..005dcac 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -2,6 +2,8 @@
 // Created by wegam on 2023/1/21.
 //
 
+#include <cmath>
+#include <cstdio>
 #include <fstream>
 #include <sstream>
 #include <regex>
@@ -39,6 +41,23 @@ namespace Dal {
         // this simple implementation just assumes there are none (fastest)
         // could have one that wraps, one that errors
 
+        String_ Quoted(const String_& src) {
+            String_ ret_val("\"");
+            for (const char c : src) {
+                if (c == '"' || c == '\\') {
+                    ret_val += '\\';
+                    ret_val += c;
+                } else if (static_cast<unsigned char>(c) < 0x20) {
+                    char buf[8];
+                    std::snprintf(buf, sizeof(buf), "\\u%04x", static_cast<int>(c));
+                    ret_val += buf;
+                } else
+                    ret_val += c;
+            }
+            ret_val += '"';
+            return ret_val;
+        }
+
         struct XDocStore_ : Archive::Store_ {
             std::ostream& dst_;
             std::map<const Storable_*, String_>& sharedTags_;
@@ -81,7 +100,8 @@ namespace Dal {
                 std::shared_ptr<XDocStore_>& retval = children_[name];
                 if (!retval) {
                     // assume we are going to write the child immediately
-                    dst_ << Prep() << "\"" << name << "\": ";
+                    dst_ << Prep() << Quoted(name) << ": ";
+                    empty_ = false;
                     retval.reset(new XDocStore_(dst_, sharedTags_, this, name));
                 }
                 return *retval;
@@ -89,19 +109,20 @@ namespace Dal {
 
             // store atoms
             XDocStore_& operator=(double val) override {
+                REQUIRE(std::isfinite(val), "Can't write a non-finite number to JSON");
                 dst_ << String::FromDouble(val);
                 return *this;
             }
 
-            XDocStore_& operator=(int val) {
-                dst_ << String::FromDouble(val);
+            XDocStore_& operator=(int val) override {
+                dst_ << String::FromInt(val);
                 return *this;
             }
-            XDocStore_& operator=(bool val) {
+            XDocStore_& operator=(bool val) override {
                 dst_ << String::FromBool(val);
                 return *this;
             }
-            XDocStore_& operator=(const String_& val) override { dst_ << "\"" << val << "\""; return *this; }
+            XDocStore_& operator=(const String_& val) override { dst_ << Quoted(val); return *this; }
             XDocStore_& operator=(const Date_& val) override { return operator=(Date::ToString(val)); }
             XDocStore_& operator=(const DateTime_& val) override { return operator=(DateTime::ToString(val)); }
             XDocStore_& operator=(const Cell_& c) {
@@ -172,6 +193,8 @@ namespace Dal {
         }
         // create matrix from vector of values
         template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
+            if (cols == 0 && vals.empty())
+                return Matrix_<E_>();
             REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
             const int rows = vals.size() / cols;
             Matrix_<E_> ret_val(rows, cols);
@@ -182,7 +205,7 @@ namespace Dal {
 
         // need checked access at every level -- support with "E" element-extractors
         double EDouble(const element_t& doc) {
-            REQUIRE(doc.IsDouble() || doc.IsInt(), "Can't get a numeric value");
+            REQUIRE(doc.IsNumber(), "Can't get a numeric value");
             return doc.GetDouble();
         }
         int EInt(const element_t& doc) {
@@ -195,7 +218,7 @@ namespace Dal {
         }
         String_ EString(const element_t& doc) {
             REQUIRE(doc.IsString(), "Can't get a string value");
-            return String_(doc.GetString());
+            return String_(std::string(doc.GetString(), doc.GetStringLength()));
         }
         Date_ EDate(const element_t& doc) { // worrying about efficiency, so storing dates as Excel-compatible integers
             if (doc.IsInt())
@@ -218,12 +241,12 @@ namespace Dal {
         Cell_ ECell(const element_t& doc) {
             static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
             static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
-            if (doc.IsDouble())
+            if (doc.IsNumber())
                 return Cell_(doc.GetDouble());
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
-                const std::string src = doc.GetString();
+                const std::string src(doc.GetString(), doc.GetStringLength());
                 if (std::regex_match(src, DATE_PATTERN))
                     return Cell_(Date::FromString(String_(src)));
                 else if (std::regex_match(src, DATE_TIME_PATTERN))
@@ -251,13 +274,17 @@ namespace Dal {
                 return String_();
             }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (HasChild(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
             Handle_<Storable_>& Known(Archive::Built_& built) const override // returns a reference within 'built'
             {
-                return built.known_[Tag()];
+                const String_ tag = Tag();
+                Handle_<Storable_>& ret_val = built.known_[tag];
+                if (tag.empty())
+                    ret_val.reset(); // untagged objects are not shared
+                return ret_val;
             }
 
             // direct storage of atoms
@@ -280,23 +307,26 @@ namespace Dal {
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
             Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EDouble));
             }
             Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EString));
             }
             Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), ECell));
             }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (HasChild(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const {
+                REQUIRE(HasChild(name), "Child '" + name + "' not found");
+                return doc_[name.c_str()];
+            }
+            bool HasChild(const String_& name) const override { return doc_.IsObject() && doc_.HasMember(name.c_str()); }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
@@ -311,7 +341,8 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(src.c_str());
+        REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -323,8 +354,9 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<rapidjson::kParseFullPrecisionFlag>(is);
         fclose(fp);
+        REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..3357a05 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -37,7 +37,7 @@ namespace Dal {
             explicit XSplat_(map<const Storable_*, String_>& shared_tags) : sharedTags_(shared_tags) {}
 
             int Rows() const {
-                REQUIRE(type_.empty() == children_.empty(), "children type status should be same");
+                REQUIRE(!type_.empty() || children_.empty(), "children type status should be same");
                 if (!val_.Empty()) {
                     REQUIRE(type_.empty(), "");
                     return val_.Rows();
@@ -45,7 +45,7 @@ namespace Dal {
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val += c.second->Rows();
-                return ret_val;
+                return max(1, ret_val); // an empty value still needs a place
             }
 
             int Cols() const {
@@ -53,7 +53,7 @@ namespace Dal {
                     return val_.Cols();
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
@@ -61,7 +61,7 @@ namespace Dal {
                 if (!val_.Empty()) {
                     for (int ir = 0; ir < val_.Rows(); ++ir)
                         copy(val_.Row(ir).begin(), val_.Row(ir).end(), dst.Row(ir + row_offset).begin() + col_offset);
-                } else {
+                } else if (!type_.empty()) {
                     dst(row_offset, col_offset) = tag_ + OBJECT_PREFACE + type_;
                     for (const auto& c : children_) {
                         dst(row_offset, 1 + col_offset) = c.first;
@@ -112,6 +112,8 @@ namespace Dal {
             }
 
             XSplat_& operator=(double d) override { SetScalar(d); return *this; }
+            XSplat_& operator=(int i) override { SetScalar(i); return *this; }
+            XSplat_& operator=(bool b) override { SetScalar(b); return *this; }
             XSplat_& operator=(const Date_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const DateTime_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const String_& s) override { SetScalar(s); return *this; }
@@ -243,7 +245,7 @@ namespace Dal {
             const View_& Child(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                REQUIRE(nameCol + 1 < data_.Cols(), "Can't have a child");
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         auto jr = ir + 1;
@@ -259,7 +261,8 @@ namespace Dal {
             bool HasChild(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                if (nameCol >= data_.Cols())
+                    return false;
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         return true;
@@ -293,9 +296,9 @@ namespace Dal {
 
             pair<Matrix_<Cell_>::Row_::const_iterator, Matrix_<Cell_>::Row_::const_iterator> VectorRange() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a vector value from a multi-line entry");
-                int colStop = colStart_ + 1;
-                while (colStop < data_.Cols() && !Cell::IsEmpty(data_(rowStart_, colStop)))
-                    ++colStop;
+                int colStop = data_.Cols();
+                while (colStop > colStart_ && Cell::IsEmpty(data_(rowStart_, colStop - 1)))
+                    --colStop;
                 return make_pair(data_.Row(rowStart_).begin() + colStart_, data_.Row(rowStart_).begin() + colStop);
             }
 
@@ -310,19 +313,16 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
-                    for (int ir = rowStart_;; ++ir) {
-                        if (ir == rowStop_)
-                            return ret_val; // found an empty column
-                        else if (!Cell::IsEmpty(data_(ir, ret_val)))
-                            break; // column is not empty
-                    }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
-                }
+                for (int ret_val = data_.Cols(); ret_val > colStart_; --ret_val)
+                    for (int ir = rowStart_; ir < rowStop_; ++ir)
+                        if (!Cell::IsEmpty(data_(ir, ret_val - 1)))
+                            return ret_val; // found the last column which is not empty
+                return colStart_;
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
                 Matrix_<VALUE_TYPE_OF(translate(data_(0, 0)))> ret_val;
+                if (col_stop == colStart_)
+                    return ret_val;
                 ret_val.Resize(rowStop_ - rowStart_, col_stop - colStart_);
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     transform(data_.Row(ir).begin() + colStart_, data_.Row(ir).begin() + col_stop,
@@ -345,7 +345,13 @@ namespace Dal {
                 return ret_val;
             }
 
-            Handle_<Storable_>& Known(Archive::Built_& built) const override { return built.known_[Tag()]; }
+            Handle_<Storable_>& Known(Archive::Built_& built) const override {
+                const String_ tag = Tag();
+                Handle_<Storable_>& ret_val = built.known_[tag];
+                if (tag.empty())
+                    ret_val.reset(); // untagged objects are not shared
+                return ret_val;
+            }
         };
 
         Cell_ AsCell(const String_& content) {
@@ -363,9 +369,23 @@ namespace Dal {
                 if (!*e)
                     return Cell_(ret_val);
             }
+            if (Date::IsDateString(content))
+                return Cell_(Date::FromString(content));
+            if (DateTime::IsDateTimeString(content))
+                return Cell_(DateTime::FromString(content));
             return Cell_(content);
         }
 
+        // mark the text which would be read back as something else
+        Cell_ AsWritten(const Cell_& src) {
+            if (!Cell::IsString(src) || Cell::IsEmpty(src))
+                return src;
+            const String_ text = Cell::ToString(src);
+            if (!Date::IsDateString(text) && !DateTime::IsDateTimeString(text) && AsCell(text) == src)
+                return src;
+            return Cell_(String_("=" + text + "="));
+        }
+
         Vector_<Cell_> SplitLine(const String_& line) {
             Vector_<Cell_> ret_val;
             auto start = line.begin();
@@ -409,6 +429,9 @@ namespace Dal {
 
     void SplatFile(const String_& file_name, const Storable_& src) {
         Matrix_<Cell_> mat = Splat(src);
+        for (int ii = 0; ii < mat.Rows(); ++ii)
+            for (auto& c : mat.Row(ii))
+                c = AsWritten(c);
         NOTE("Save object to local file");
         Vector_<String_> ret = Cell::ToStringLines(mat);
         File::Write(file_name, ret);
-- 
2.43.0


From 5573849741c517769623b6ca9f09cabc5b42a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:30 +0000
Subject: [PATCH 35/54] fix: dictionary text with blank values parses, and
 non-ASCII spellings compare safely

---
 dal/string/strings.cpp       |  4 ++--
 dal/utilities/dictionary.cpp | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index e190902..e8eba09 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -81,7 +81,7 @@ namespace Dal::String {
         String_ ret_val;
         for (const auto& c : src) {
             if (!IsFluff(c))
-                ret_val.push_back(static_cast<char>(toupper(static_cast<int>(c))));
+                ret_val.push_back(static_cast<char>(toupper(static_cast<unsigned char>(c))));
         }
         return ret_val;
     }
@@ -100,7 +100,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
diff --git a/dal/utilities/dictionary.cpp b/dal/utilities/dictionary.cpp
index 2408eef..1efab6f 100644
--- a/dal/utilities/dictionary.cpp
+++ b/dal/utilities/dictionary.cpp
@@ -55,10 +55,11 @@ namespace Dal {
         Vector_<String_> entries = String::Split(s, ';', false);
         Dictionary_ ret_val;
         for (const auto& kev : entries) {
-            Vector_<String_> kv = String::Split(kev, '=', true);
-            REQUIRE(kv.size() == 2, "Dictionary entry must have the form 'key=value'");
-            REQUIRE(!kv.front().empty(), "Empty dictionary key");
-            const String_& vs = kv.back();
+            const auto eq = kev.find('=');
+            REQUIRE(eq != String_::npos && kev.find('=', eq + 1) == String_::npos, "Dictionary entry must have the form 'key=value'");
+            const String_ key = kev.substr(0, eq);
+            REQUIRE(!key.empty(), "Empty dictionary key");
+            const String_ vs = kev.substr(eq + 1); // may be empty, for a blank value
             Cell_ value;
             if (String::IsNumber(vs))
                 value = String::ToDouble(vs);
@@ -68,7 +69,7 @@ namespace Dal {
                 value = DateTime::FromString(vs);
             else if (!vs.empty())
                 value = vs;
-            ret_val.Insert(kv.front(), value);
+            ret_val.Insert(key, value);
         }
         return ret_val;
     }
-- 
2.43.0


From 7954b8c15a5384d534c36eb887060db2bf1d082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:22 +0000
Subject: [PATCH 36/54] fix: fixings are kept under one lock in a store that
 exists, and lookups without access report absence

---
 dal/indice/fixings.hpp      |  8 ++------
 dal/indice/index.cpp        |  2 +-
 dal/storage/_repository.cpp |  3 ++-
 dal/storage/globals.cpp     | 10 +++++-----
 dal/storage/globals.hpp     |  5 +----
 5 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/dal/indice/fixings.hpp b/dal/indice/fixings.hpp
index 56a7371..3fc5777 100644
--- a/dal/indice/fixings.hpp
+++ b/dal/indice/fixings.hpp
@@ -22,15 +22,11 @@ fixing_times is datetime[]
 -IF-------------------------------------------------------------------------*/
 
 namespace Dal {
-    class FixHistory_ {
-    public:
+    struct FixHistory_ {
         using vals_t = std::map<DateTime_, double>;
-
-    private:
         vals_t vals_;
 
-    public:
-        FixHistory_(const vals_t& vals) : vals_(vals) {}
+        FixHistory_(const vals_t& vals = vals_t()) : vals_(vals) {}
         double Find(const DateTime_& fix_time, bool quiet = false) const;
     };
 
diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..6fca1d0 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,7 +12,7 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
         auto vals = fixings ? fixings->vals_ : EMPTY;
diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 53b8944..053e1ed 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -126,7 +126,7 @@ namespace Dal {
                 auto po = TheObjects().lower_bound(tagStart);
                 if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
                 return EMPTY;
@@ -134,6 +134,7 @@ namespace Dal {
         };
 
         RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 89be3f7..a492079 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -21,8 +21,8 @@ namespace Dal {
         // static
         std::unique_ptr<Global::Store_>& XTheDateStore() { RETURN_STATIC(std::unique_ptr<Global::Store_>); }
 
-        static std::mutex TheStoreMutex; // locks all the stores there are
-#define LOCK_STORES std::lock_guard<std::mutex> l(TheStoreMutex)
+        static std::recursive_mutex TheStoreMutex; // locks all the stores there are
+#define LOCK_STORES std::lock_guard<std::recursive_mutex> l(TheStoreMutex)
 
         // utility functions to store a date by name
         Date_ GetGlobalDate(const String_& which) {
@@ -98,15 +98,15 @@ namespace Dal {
             return retval;
         assert(stored.Cols() == 2);
         assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+        assert(AllOf(stored.Col(1), Cell::TypeCheck_<double>()));
         const int n = stored.Rows();
-        retval.vals_.Resize(n);
         for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
+            retval.vals_[Cell::ToDateTime(stored(ii, 0))] = Cell::ToDouble(stored(ii, 1));
         return retval;
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+        LOCK_STORES;
         std::map<DateTime_, double> all;
         if (append) {
             const FixHistory_& old = Global::Fixings_().History(index);
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index ec73d27..fb30a4a 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <dal/indice/fixings.hpp>
 #include <dal/utilities/environment.hpp>
 
 namespace Dal {
@@ -14,10 +15,6 @@ namespace Dal {
     class Date_;
     class DateTime_;
 
-    struct FixHistory_ {
-        Vector_<pair<DateTime_, double>> vals_;
-    };
-
     namespace Global {
         class Store_ : noncopyable {
         public:
-- 
2.43.0


From 3de4d0b89ff50e1c98184d72788800d0b8bd6ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:50 +0000
Subject: [PATCH 37/54] fix: arrays, matrices and reports keep their cells when
 resized and reject addresses outside

---
 dal/math/matrix/matrixs.hpp     |  5 +++--
 dal/math/matrix/matrixutils.cpp |  1 +
 dal/math/matrix/matrixutils.hpp |  2 +-
 dal/math/ndarray.cpp            |  4 +++-
 dal/math/ndarray.hpp            |  2 +-
 dal/risk/report.cpp             | 21 ++++++++++++++++-----
 6 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 0158b9b..42e5962 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -54,7 +54,7 @@ namespace Dal {
             std::swap(hooks_, rhs.hooks_);
         }
 
-        Matrix_(Matrix_&& rhs) noexcept { swap(rhs); }
+        Matrix_(Matrix_&& rhs) noexcept : cols_(0) { swap(rhs); }
 
         Matrix_& operator=(Matrix_&& rhs) noexcept {
             if (this != &rhs) {
@@ -214,7 +214,7 @@ namespace Dal {
             vals_.Swap(&other->vals_);
             hooks_.Swap(&other->hooks_);
             std::swap(cols_, other->cols_);
-            REQUIRE(hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
+            REQUIRE(hooks_.empty() || hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
         }
 
         void Fill(const E_& val) { vals_.Fill(val); }
@@ -224,6 +224,7 @@ namespace Dal {
         void Resize(int rows, int cols) {
             const auto old_rows = hooks_.size();
             if (cols == cols_ && rows * old_rows > 0) {
+                vals_.Resize(std::min<size_t>(rows, old_rows) * cols); // new rows start out empty
                 vals_.Resize((rows + 1) * cols);
                 hooks_.Resize(rows);
                 SetHook(hooks_[0] == vals_.begin() ? old_rows : 0);
diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..9fa3b35 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -228,6 +228,7 @@ namespace Dal {
         }
 
         Writer_* XNewWriter(const String_& format) {
+            REQUIRE(!format.empty(), "Format has an empty element");
             // POSTPONED -- should ':' and ';' have the same precedence?
             if (auto vr = MultipleWriter(format, ':', []() { return new VerticalWriter_(true); }))
                 return vr;
diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index e45f315..9d12625 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -25,7 +25,7 @@ namespace Dal {
             REQUIRE(above != nullptr, "above matrix is null");
             const int offset = above->Rows();
             // efficient unless below is too wide
-            above->Resize(offset + below.Rows(), max(above->Cols(), below.Cols()));
+            above->Resize(offset + below.Rows(), std::max(above->Cols(), below.Cols()));
             for (int ir = 0; ir < below.Rows(); ++ir) {
                 auto t_row = above->Row(ir + offset);
                 Copy(below.Row(ir), &t_row);
diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..0d687ab 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,10 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        if (nd == 0 || *MinElement(mins) <= 0)
+            return ret_val; // no common elements
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,7 +35,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
         return ret_val;
     }
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..e68f3f4 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -52,9 +52,9 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             sizes_ = new_sizes;
             strides_ = ArrayN::Strides(sizes_);
+            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             for (const auto& move : moves)
                 new_values[move.second] = vals_[move.first];
             vals_.Swap(&new_values);
diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..ce9b7a8 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -59,7 +59,8 @@ namespace Dal {
         for (const auto& a : axes) {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
-            REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
+            REQUIRE(a.size_ > 0 || (which == 0 && a.size_ == 0), "Zero size is not allowed");
+            REQUIRE(!axes_.count(a.name_), "Duplicate axis");
             axes_[a.name_] = which;
             strides_ *= a.size_;
             strides_.push_back(1);
@@ -91,8 +92,17 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // only the first axis can grow; the sizes of the others are implied by the strides
+        void CheckAddress(const Vector_<int>& locs, const Vector_<int>& strides) {
+            REQUIRE(locs.size() == strides.size(), "Address is not for this report");
+            for (int ii = 0; ii < static_cast<int>(locs.size()); ++ii)
+                REQUIRE(locs[ii] >= 0 && (ii == 0 || locs[ii] < strides[ii - 1] / strides[ii]), "Invalid index into report");
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         if (which >= vals_.size()) {
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
@@ -102,7 +112,7 @@ namespace Dal {
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
@@ -130,9 +140,10 @@ namespace Dal {
 
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
-        const auto n_labels = labels_.size();
-        NOTICE(static_cast<int>(n_labels));
+        const int n_labels = static_cast<int>(labels_.size());
+        NOTICE(n_labels);
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
+        REQUIRE(offset >= 0, "Header row can't be negative");
         if (offset >= values_.Rows())
             values_.Resize(offset + 1, static_cast<int>(labels_.size()));
         auto row = values_.Row(offset);
-- 
2.43.0


From 538b61c25241cda845a520d5a89a75e3f5018ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:38 +0000
Subject: [PATCH 38/54] fix: piecewise curves reject unsorted or mismatched
 knots

---
 dal/curve/piecewiseconstant.cpp | 3 +++
 dal/curve/piecewiselinear.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dal/curve/piecewiseconstant.cpp b/dal/curve/piecewiseconstant.cpp
index f9b064c..01366ab 100644
--- a/dal/curve/piecewiseconstant.cpp
+++ b/dal/curve/piecewiseconstant.cpp
@@ -8,6 +8,7 @@
 #include <dal/curve/piecewiseconstant.hpp>
 #include <dal/storage/archive.hpp>
 #include <dal/utilities/algorithms.hpp>
+#include <dal/utilities/exceptions.hpp>
 
 /*IF--------------------------------------------------------------------------
 storable PiecewiseConstant
@@ -33,6 +34,8 @@ namespace Dal {
     }
 
     Vector_<> PiecewiseConstant_::Sofar() const {
+        REQUIRE(knotDates_.size() == fRight_.size(), "Piecewise constant function needs a value for each knot");
+        REQUIRE(IsMonotonic(knotDates_), "Knots must be increasing");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
diff --git a/dal/curve/piecewiselinear.cpp b/dal/curve/piecewiselinear.cpp
index 869c32a..9ac30be 100644
--- a/dal/curve/piecewiselinear.cpp
+++ b/dal/curve/piecewiselinear.cpp
@@ -8,9 +8,12 @@
 #include <dal/curve/piecewiselinear.hpp>
 #include <dal/time/date.hpp>
 #include <dal/utilities/algorithms.hpp>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
     Vector_<> PiecewiseLinear_::Sofar() const {
+        REQUIRE(knotDates_.size() == fLeft_.size() && knotDates_.size() == fRight_.size(), "Piecewise linear function needs two values for each knot");
+        REQUIRE(IsMonotonic(knotDates_), "Knots must be increasing");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
-- 
2.43.0


From 8dd7dc55c6f1adcb65db1d14fb889bbfcb693a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:03 +0000
Subject: [PATCH 39/54] fix: banded Cholesky factors stay inside the band and
 the matrix, and matrices delete through their base

---
 dal/math/matrix/banded.cpp | 8 ++++----
 dal/math/matrix/sparse.hpp | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..b4b509d 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -216,7 +216,7 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            val_.At(ii, ii) = std::sqrt(max(0.0, residual));
                         }
                     }
                 }
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
diff --git a/dal/math/matrix/sparse.hpp b/dal/math/matrix/sparse.hpp
index fb3d90a..d46f18d 100644
--- a/dal/math/matrix/sparse.hpp
+++ b/dal/math/matrix/sparse.hpp
@@ -16,6 +16,7 @@ namespace Dal::Sparse {
 
     class Square_ : noncopyable {
     public:
+        virtual ~Square_() = default;
         [[nodiscard]] virtual int Size() const = 0;
         virtual void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const = 0;
         virtual void MultiplyRight(const Vector_<>& x, Vector_<>* b) const = 0;
-- 
2.43.0


From 12999b1e936a23920e5f54797e0d902dcb73321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:03 +0000
Subject: [PATCH 40/54] fix: dense decompositions size their results, multiply
 by the diagonal and allow semi-definite matrices

---
 dal/math/matrix/cholesky.cpp           | 14 +++++++++++---
 dal/math/matrix/decompositionsmisc.cpp |  4 +++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..674fec7 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -40,6 +40,12 @@ namespace Dal {
             SquareMatrix_<>* lower_;
             bool needKeep_;
 
+            // the stored diagonal is inverted; it is zero in the null space of a semi-definite matrix
+            [[nodiscard]] double Diagonal(int ii) const {
+                const double inv = (*lower_)(ii, ii);
+                return inv == 0.0 ? 0.0 : 1.0 / inv;
+            }
+
         public:
             explicit Cholesky_(const SquareMatrix_<>& src, SquareMatrix_<>* lower = nullptr, double regularization = Dal::EPSILON) {
                 if (lower) {
@@ -70,19 +76,21 @@ namespace Dal {
                 // multiply by L^T
                 for (int ii = 0; ii < n; ++ii) {
                     temp[ii] = std::inner_product(x.begin() + ii + 1, x.end(), lower_->Col(ii).begin() + ii + 1, 0.0);
-                    temp[ii] += x[ii] / (*lower_)(ii, ii);
+                    temp[ii] += x[ii] * Diagonal(ii);
                 }
 
                 // multiply by L
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*b)[ii] = std::inner_product(temp.begin(), temp.begin() + ii, lower_->Row(ii).begin(), 0.0);
-                    (*b)[ii] += temp[ii] / (*lower_)(ii, ii);
+                    (*b)[ii] += temp[ii] * Diagonal(ii);
                 }
             }
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                REQUIRE(b.size() == n, "Size should be compatible with b and the matrix");
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
@@ -100,7 +108,7 @@ namespace Dal {
                 correlated->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*correlated)[ii] = std::inner_product(iid_begin, iid_begin + ii, lower_->Row(ii).begin(), 0.0);
-                    (*correlated)[ii] += *(iid_begin + ii) / (*lower_)(ii, ii);
+                    (*correlated)[ii] += *(iid_begin + ii) * Diagonal(ii);
                 }
                 return correlated->begin();
             }
diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..6906b0c 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(Size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(Size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
@@ -66,7 +68,7 @@ namespace Dal {
                 const int n = Size();
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
-- 
2.43.0


From e6c9f2a1bf2d84c2d2e7b006c22e01b8d29eae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:03 +0000
Subject: [PATCH 41/54] fix: conjugate gradients accept a starting point that
 already solves the system

---
 dal/math/matrix/bcg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index 4fedb85..40afb21 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,6 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -97,6 +99,8 @@ namespace Dal {
 
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         rr = r;
 
         double betaPrev;
-- 
2.43.0


From 9f41bfc499313f4f7c8a1d5bf254ec94ca2ec06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:35 +0000
Subject: [PATCH 42/54] fix: linear interpolation keeps the dependence on the
 abscissa in differentiated numbers

---
 dal/math/interp/interp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..817f9cf 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -39,7 +39,7 @@ namespace Dal {
         if (pge == x.begin() || IsZero(x0 - *pge))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
-- 
2.43.0


From 7b7756ffa5ba75cd0feefdd0ae917316390b0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:20 +0000
Subject: [PATCH 43/54] fix: jump-diffusion prices sum over all numbers of
 jumps that matter

---
 dal/math/analytics/vanilla.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dal/math/analytics/vanilla.hpp b/dal/math/analytics/vanilla.hpp
index 0f2a98e..31d7cba 100644
--- a/dal/math/analytics/vanilla.hpp
+++ b/dal/math/analytics/vanilla.hpp
@@ -32,17 +32,18 @@ namespace Dal::AAD {
         const T_ var = vol * vol;
         const T_ intensT = intens * mat;
 
-        unsigned fact = 1;
-        double iT = 1.0;
-        const size_t cut = 10;
+        // sum over the number of jumps, until the weights (also with the jumps' growth) have died out
+        const T_ weighted = intensT * Dal::exp(mv2);
+        T_ prob = Dal::exp(-intensT);
         T_ result = 0.0;
-        for (size_t n = 0; n < cut; ++n) {
+        for (int n = 0;; ++n) {
             const T_ s = spot * Dal::exp(n * mv2 - comp * mat);
             const T_ v = Dal::sqrt(var + n * varJmp / mat);
-            const T_ prob = Dal::exp(-intensT) * iT / fact;
-            result += prob * BlackScholes<T_>(s, strike, v, mat);
-            fact *= n + 1;
-            iT *= intensT;
+            const T_ term = prob * BlackScholes<T_>(s, strike, v, mat);
+            result += term;
+            if (intensT < 0.5 * n && weighted < 0.5 * n && term < EPSILON * spot)
+                break;
+            prob *= intensT / (n + 1);
         }
         return result;
     }
-- 
2.43.0


From 8aad824503312e32b7e52a2d9b4e00a4a9bb2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:20 +0000
Subject: [PATCH 44/54] fix: normal option prices hold for forwards and strikes
 of any sign

---
 dal/math/distribution/black.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..767641f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
-- 
2.43.0


From 3b885c018cc5f6617c60187ec2034e0894ff43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:20 +0000
Subject: [PATCH 45/54] fix: implied volatilities search the logarithm from a
 place where the price moves

---
 dal/math/distribution/black.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..f9f6109 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -12,11 +12,13 @@
 namespace Dal {
     namespace Distribution {
         double BlackIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
-            static const int MAX_ITERATIONS = 30;
+            static const int MAX_ITERATIONS = 100;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? log(guess) : -1.5);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            // without a guess start no lower than where the price has most vega: below it may not move at all
+            const double start = IsPositive(fwd * strike) ? max(exp(-1.5), sqrt(2.0 * fabs(log(fwd / strike)))) : exp(-1.5);
+            Brent_ task(log(guess > 0.0 ? guess : start));
+            Converged_ done(TOL, TOL * max(1.0, price)); // the search is in the logarithm of the volatility
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BlackOpt(fwd, vol, strike, type) - price))
@@ -53,11 +55,11 @@ namespace Dal {
         }
 
         double BachelierIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
-            static const int MAX_ITERATIONS = 30;
+            static const int MAX_ITERATIONS = 100;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
+            Brent_ task(log(guess > 0.0 ? guess : max(0.2 * fabs(fwd), max(fabs(fwd - strike), 1.0e-4))));
+            Converged_ done(TOL, TOL * max(1.0, price)); // the search is in the logarithm of the volatility
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
                 if (done(task, BachelierOpt(fwd, vol, strike, type) - price))
-- 
2.43.0


From ca3e36847141e58d7672bab5cc345835663c174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 46/54] fix: smoothing couples neighbouring values

---
 dal/math/smooth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index e651fe9..2ba5daf 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -16,7 +16,7 @@ namespace Dal {
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
         Vector_<> coupling(n);
         for (int i = 1; i < n; ++i)
-            coupling[i] = lambda / std::max(x[i] - x[i-1], DX_MIN);
+            coupling[i - 1] = lambda / std::max(x[i] - x[i - 1], DX_MIN);
         coupling.back() = 0.0;
 
         Vector_<> beta(n), gamma(n);
-- 
2.43.0


From 59acb3498dd51fbff7d5b435a1b5c399ba17119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 47/54] fix: the underdetermined search can be configured and
 backtracks to the minimum of the interpolated residual

---
 dal/math/optimization/underdetermined.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 9df22aa..57fd142 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -15,7 +15,7 @@
 #include <dal/utilities/numerics.hpp>
 
 namespace Dal {
-#include <dal/auto/MG_UnderdeterminedControls_object.hpp>
+#include <dal/auto/MG_UnderdeterminedControls_object.inc>
 
     namespace Underdetermined {
         void Function_::Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const {
@@ -232,8 +232,8 @@ namespace Dal {
                 const double oldNew = InnerProduct(fOld, fNew);
                 const double newNew = InnerProduct(fNew, fNew);
                 // \tilde f^2 = oldOld * k^2 + 2 * oldNew * k * (1-k) + newNew * (1-k)^2
-                // its k-derivative is oldOld * 2 * k + oldNew * (1 - 2*k) + 2 * newNew * (k-1)
-                double kMin = (newNew - 0.5 * oldNew) / (newNew - oldNew + oldOld);
+                // half its k-derivative is oldOld * k + oldNew * (1 - 2*k) + newNew * (k-1)
+                double kMin = (newNew - oldNew) / (newNew - 2.0 * oldNew + oldOld);
                 if (kMin < controls.backtrackTolerance_) {
                     if (!restart) {
                         j->SecantUpdate(s, Apply(std::minus<>(), fNew, fOld));
-- 
2.43.0


From b89af3b080da992abb7d8b29e7c3d9a56bc8493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 48/54] fix: matrices can be iterated for writing, so a risk
 view can be built

RiskView_ fills its spreads through Matrix_::begin()/end(), which only gave constant iterators: no risk view of any number type compiled.
---
 dal/math/matrix/matrixs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 42e5962..0f09cd9 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -41,8 +41,10 @@ namespace Dal {
         }
         CI_ First() const { return vals_.begin(); }
         inline CI_ begin() const { return First(); }
+        inline I_ begin() { return vals_.begin(); }
         CI_ Last() const { return vals_.end() - cols_; }
         inline CI_ end() const { return Last(); }
+        inline I_ end() { return vals_.end() - cols_; }
 
         CR_ operator()(int row, int col) const { return hooks_[row][col]; }
         R_ operator()(int row, int col) { return hooks_[row][col]; }
-- 
2.43.0


From 4f032af12116bc6214ae78143ae1183d080b2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 49/54] fix: calibration with no grid spot inside the band uses
 the local volatility at the money

With all grid spots further than 2.5 standard deviations from the spot, the grid was filled from unset or out-of-range entries.
---
 dal/model/dupire.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..cffd03b 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -208,6 +208,13 @@ namespace Dal {
             while (ih >= 0 && spots[ih] > ivs.Spot() + 2.5 * std)
                 --ih;
 
+            // No spot within 2.5 std, flat at the money
+            if (il > ih) {
+                for (int i = 0; i < nSpots; ++i)
+                    lVolsBegin[i] = ivs.LocalVol(ivs.Spot(), maturity, &riskView);
+                return;
+            }
+
             // Loop on spots
             for (int i = il; i <= ih; ++i) {
                 //  Dupire's formula
-- 
2.43.0


From cdaa656f2bcbd908bcd5f3c5b5e26c74eaa9f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 50/54] fix: exchange-rate indices are parsed by name

FxParser was never registered, so Index::Parse and Index::Clone failed on every FX index.
---
 dal/indice/parser/init.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..977b31a 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -8,6 +8,7 @@
 #include <dal/string/strings.hpp>
 #include <dal/indice/indexparse.hpp>
 #include <dal/indice/parser/equity.hpp>
+#include <dal/indice/parser/fx.hpp>
 
 namespace Dal {
 
@@ -16,6 +17,7 @@ namespace Dal {
     void IndexParsers_::Init() {
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
+            Index::RegisterParser("FX", Index::FxParser);
             init_ = true;
         }
     }
-- 
2.43.0


From bd6c32889f7f53fa33857a0a62cbbec687a84b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 51/54] fix: malformed index names are rejected

EQ:IBM, EQ[IBM and EQ[IBM]x were read as some other equity, FX[USD/EUR]x as FX[USD/EUR].
---
 dal/indice/parser/equity.cpp | 5 +++--
 dal/indice/parser/fx.cpp     | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..c713c45 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -12,10 +12,11 @@ namespace Dal::Index {
     Index_* EquityParser(const String_& name) {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
+        REQUIRE(eq_start == name.find_first_of(":[") && eq_start < eq_stop && eq_stop != String_::npos, "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
-        auto tenor_start = name.find_first_of("@>", eq_stop + 1);
-        if (tenor_start == String_::npos)
+        auto tenor_start = eq_stop + 1;
+        if (tenor_start == name.length())
             return new Equity_(eq_name, nullptr, nullptr);
         else if (name[tenor_start] == '@') {
             auto delivery_date = Date::FromString(name.substr(tenor_start + 1, name.length() - tenor_start - 1));
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 3dbd85a..1ab02b5 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -13,6 +13,7 @@ namespace Dal::Index {
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
         REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos, "fx index pattern is not good");
+        REQUIRE(fx_start == name.find_first_of(":[") && fx_start < fx_sep && fx_sep < fx_stop && fx_stop + 1 == name.length(), "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
-- 
2.43.0


From 2b8e4ef03f1c020a286fe5d4c9aa9bc8a5230847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 52/54] fix: stacks of plain values can be copied

The copy constructor called an unqualified copy, found only by argument-dependent lookup.
---
 dal/math/stacks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 2505780..0d44f54 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -42,7 +42,7 @@ namespace Dal {
             else
                 data_ = nullptr;
             if (sp_ > 0)
-                copy(rhs.data_, rhs.data_ + sp_, data_);
+                std::copy(rhs.data_, rhs.data_ + sp_, data_);
         }
 
         Stack_& operator=(const Stack_& rhs) {
-- 
2.43.0


From abc21819765a6a491327843ca654713cd516eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 53/54] fix: taking the top of a growing stack returns the top

TopAndPop returned the slot one past the top.
---
 dal/math/stacks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 0d44f54..86a3415 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -111,7 +111,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
-- 
2.43.0


From 7bc7836a44002bdbd124bf58fcb78ac1c2bfbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:50 +0000
Subject: [PATCH 54/54] fix: a cleared, moved-from or zero-capacity stack
 accepts pushes

Push wrote through a null pointer.
---
 dal/math/stacks.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 86a3415..1c1cae7 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -94,6 +94,12 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
+            if (size_ == 0) {
+                // nothing allocated yet, or given away
+                delete[] data_;
+                size_ = DefaultSize > 0 ? static_cast<int>(DefaultSize) : 1;
+                data_ = new E_[size_];
+            }
             data_[sp_] = std::forward<T_>(value);
             ++sp_;
             if (sp_ >= size_) {
-- 
2.43.0

