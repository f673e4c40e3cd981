From 795237b755e540fd1523cded70c29f339e3101cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 01/23] fix: make the array versions of Subtract, Divide and
 Derivative usable

SubtractA, DivideA and DerivativeA did not compile when instantiated.
---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..ee5608d 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From b36b7349632a892af60c55239dcae9fa44b8fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 02/23] fix: Derivative remembers its last output, not its last
 input

Evaluating the block again at the time of the last accepted step (first
stage of every integration step) returned the input instead of the derivative.
---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index ee5608d..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From eba68c8730c3e71e51c3748bee5c338f866c9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 03/23] fix: make the InitialValue block usable

InitialValue and InitialValueA did not compile when instantiated.
---
 src/block/extra/initial_value.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..ebcb9a4 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,16 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
+
+            // the input signal is not needed anymore
+            if (auto* ptr = Base::find_linked_signal(Base::_s_in.impl()))
+            {
+                ptr->second = ptr->second & (~Base::SignalLinkType::Required);
+            }
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 0b01b10e7b14e5074c52cd7b24a9ee786d9f4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 04/23] fix: let array functions return their result by value

SOFunctionA and SISOFunctionA only took functions returning a reference to an
array that outlives the call.
---
 src/block/extra/siso_function.hpp | 2 +-
 src/block/extra/so_function.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/siso_function.hpp b/src/block/extra/siso_function.hpp
index 6087440..ea34560 100644
--- a/src/block/extra/siso_function.hpp
+++ b/src/block/extra/siso_function.hpp
@@ -33,7 +33,7 @@ class SISOFunctionT : public SingleInputOutputT<T>
 {
 public:
     using Base        = SingleInputOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, typename Types<T>::GetValue)>;
+    using ActFunction = std::function<T(double, typename Types<T>::GetValue)>;
 
     explicit SISOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "")
         : Base(parent, name, 1), _act_func(act_func)
diff --git a/src/block/extra/so_function.hpp b/src/block/extra/so_function.hpp
index 8179405..ae209ea 100644
--- a/src/block/extra/so_function.hpp
+++ b/src/block/extra/so_function.hpp
@@ -33,7 +33,7 @@ class SOFunctionT : public SingleOutputT<T>
 {
 public:
     using Base        = SingleOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, const pooya::Bus& ibus)>;
+    using ActFunction = std::function<T(double, const pooya::Bus& ibus)>;
 
     explicit SOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "",
                          uint16_t num_iports = Block::NoIOLimit)
-- 
2.43.0


From f0f66d1eb64c18341ec4f522bb6475a06fd0a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 05/23] fix: TriggeredIntegrator samples its trigger at
 accepted steps only

A trigger seen while evaluating a trial step, which the step control then
rejected, or the ordering pass of FastSimulator, reset the integrator.
---
 src/block/extra/triggered_integrator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..f64d83e 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,9 +72,10 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
+        Base::post_step(t);
         if (!_triggered)
         {
             _triggered = _trigger;
-- 
2.43.0


From 444f70039c37075b7f1c0e64179028cd6a09c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 06/23] fix: Delay keeps the sample its oldest interpolation
 interval starts at

Delays within the lifespan gave the initial value once that sample was dropped.
---
 src/block/extra/delay.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..4aad79a 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,8 @@ public:
                 }
                 k++;
             }
+            // the last sample before the window is needed for interpolation
+            if (k > 0) k--;
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 32c1f5fb78e7cbfeaf329314dacf07abbef0b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 07/23] fix: Delay accepts a repeated step

The simulators allow a step to be repeated, Delay threw.
---
 src/block/extra/delay.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 4aad79a..f6f4d2d 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -77,7 +77,13 @@ public:
             _x.erase(_x.begin(), _x.begin() + k);
         }
 
-        pooya_debug_verify0(_t.empty() || (t > _t.back()));
+        pooya_debug_verify0(_t.empty() || (t >= _t.back()));
+        if (!_t.empty() && t == _t.back())
+        {
+            // repeated step
+            _x.back() = _s_x;
+            return;
+        }
         _t.push_back(t);
         _x.push_back(_s_x);
     }
-- 
2.43.0


From cbc87144310c9c6a0982fe527725c7215370d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 08/23] fix: let BusMemory and BusPipe run with every simulator

The builder block waited for the excluded signals with FastSimulator and was
dropped from the processing order of Simulator with reuse_order.
---
 src/block/extra/bus_block_builder.cpp | 11 ++++++-----
 src/block/extra/bus_block_builder.hpp |  1 -
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/block/extra/bus_block_builder.cpp b/src/block/extra/bus_block_builder.cpp
index 4baab28..cb3a634 100644
--- a/src/block/extra/bus_block_builder.cpp
+++ b/src/block/extra/bus_block_builder.cpp
@@ -32,6 +32,12 @@ bool BusBlockBuilder::connect(const Bus& ibus, const Bus& obus)
         return false;
     }
 
+    // the blocks built below process the signals, this one does not wait for any
+    for (auto& sig_type : _linked_signals)
+    {
+        sig_type.second = sig_type.second & (~SignalLinkType::Required);
+    }
+
     _blocks.reserve(ibus->size());
     visit_bus("", ibus);
 
@@ -64,9 +70,4 @@ void BusBlockBuilder::visit_bus(const std::string& full_label, const Bus& bus)
     }
 }
 
-void BusBlockBuilder::_mark_unprocessed()
-{
-    _processed = true;
-}
-
 } // namespace pooya
diff --git a/src/block/extra/bus_block_builder.hpp b/src/block/extra/bus_block_builder.hpp
index af9d303..caac3b4 100644
--- a/src/block/extra/bus_block_builder.hpp
+++ b/src/block/extra/bus_block_builder.hpp
@@ -49,7 +49,6 @@ public:
     }
 
     bool connect(const Bus& ibus, const Bus& obus) override;
-    void _mark_unprocessed() override;
 };
 
 } // namespace pooya
-- 
2.43.0


From e8f4287ebe600134107f87b544420508015d7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 09/23] fix: Simulator with reuse_order crashed on a model
 without state variables

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From ffc7b5d60ae33135f9261ddbdc1349bcdee89d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 10/23] fix: allow init to be called again and a model to be
 simulated again

A second init wrote past the end of the state variables, and FastSimulator
rejected a model that any simulator had processed before.
---
 src/solver/fast_simulator.cpp | 3 ++-
 src/solver/simulator.cpp      | 4 ++--
 src/solver/simulator_base.cpp | 6 ++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..48aadf0 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -46,7 +46,8 @@ void FastSimulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    pooya_debug_verify0(_processing_order.empty());
+    _processing_order.clear();
+    _model._mark_unprocessed();
 
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..632e11b 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -128,8 +128,8 @@ void Simulator::init(double t0)
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         uint num_blocks     = 0;
         auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..dda30c6 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -34,6 +34,12 @@ void SimulatorBase::init(double t0)
 {
     pooya_trace("t0: " + std::to_string(t0));
 
+    value_signals_.clear();
+    scalar_state_signals_.clear();
+#ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
+#endif // POOYA_ARRAY_SIGNAL
+
     std::size_t state_variables_size{0};
 
     std::unordered_set<ValueSignalImpl*> value_signals;
-- 
2.43.0


From 1dffacb3be6a85abbd0a7613094c510e24fcd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 11/23] fix: FastSimulator evaluates the model once at the
 initial time

It called the input callback, pre_step and the blocks twice.
---
 src/solver/fast_simulator.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 48aadf0..b95746b 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -115,9 +115,7 @@ void FastSimulator::init(double t0)
 
     _processing_order.shrink_to_fit();
 
-    for (auto& sig : value_signals_) sig->clear();
-
-    process_model(t0, true, true);
+    _model.post_step(t0);
 }
 
 } // namespace pooya
-- 
2.43.0


From 89421223e621ab4365096f66a6ea82975b130912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 12/23] fix: apply max_time_step to the first integration step
 too

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index dda30c6..bfc7719 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -199,7 +199,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From c05865b1608c2bffa1b93f5aaad5f7ecd74641f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 13/23] fix: History::untrack of a signal that is not tracked

It dropped another signal.
---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..eabad84 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 6d32a303acbc45de5bbb4f97c2dd71b3ee2170cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 14/23] fix: History::export_csv wrote rows that were never
 recorded

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index eabad84..550fbde 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -177,8 +177,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From d74e6506250171e8f97825a66dfc5cec6b89a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 15/23] fix: History with nrows_grow 0 wrote past the end of
 its arrays

---
 src/solver/history.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.hpp b/src/solver/history.hpp
index 687582a..c738fc7 100644
--- a/src/solver/history.hpp
+++ b/src/solver/history.hpp
@@ -18,6 +18,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_HELPER_HISTORY_HPP__
 #define __POOYA_HELPER_HISTORY_HPP__
 
+#include <algorithm>
 #include <sys/types.h>
 #include <unordered_map>
 #include <vector>
@@ -42,7 +43,7 @@ protected:
     std::vector<std::shared_ptr<ValueSignalImpl>> _signals;
 
 public:
-    History(uint nrows_grow = 1000) : _nrows_grow(nrows_grow), _time(nrows_grow) {}
+    History(uint nrows_grow = 1000) : _nrows_grow(std::max(1U, nrows_grow)), _time(_nrows_grow) {}
 
     bool track(const Signal& sig);
     void untrack(const Signal& sig);
-- 
2.43.0


From 098fe8dc2a3e2b9077a60e9d50ac7f0285e06c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 16/23] fix: BusImpl::try_at on a path through a missing label
 or a non-bus signal

It threw, or used the signal as if it were a bus.
---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..ffc8014 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        auto* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From 715eec2b359d87121e8004c2f52e2f7d394547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 17/23] fix: a rejected reset leaves the signal handle as it
 was

It left a null pointer behind.
---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From e2556d76c109c1aeded4055573bd85f9706e3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 18/23] fix: keep the diagnostic trace per thread

Unrelated models simulated by two threads raced on it.
---
 src/helper/trace.cpp | 2 +-
 src/helper/trace.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper/trace.cpp b/src/helper/trace.cpp
index 2578de2..a650c75 100644
--- a/src/helper/trace.cpp
+++ b/src/helper/trace.cpp
@@ -24,7 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 namespace pooya::helper
 {
 
-std::vector<PooyaTraceInfo> pooya_trace_info;
+thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 std::string pooya_trace_info_string()
 {
diff --git a/src/helper/trace.hpp b/src/helper/trace.hpp
index ea28f0e..bada8c8 100644
--- a/src/helper/trace.hpp
+++ b/src/helper/trace.hpp
@@ -43,7 +43,7 @@ struct PooyaTraceInfo
     std::string _msg;
 };
 
-extern std::vector<PooyaTraceInfo> pooya_trace_info;
+extern thread_local std::vector<PooyaTraceInfo> pooya_trace_info;
 
 class PooyaTracer
 {
-- 
2.43.0


From c28524b17dabd19e91f066b11021f4e2a37bb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 19/23] fix: History::shrink_to_fit left spare rows after an
 earlier shrink of an empty history

---
 src/solver/history.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 550fbde..0ba1088 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -131,11 +131,6 @@ void History::shrink_to_fit()
     pooya_trace0;
     const uint nrows = _bottom_row + 1;
 
-    if (nrows >= _time.rows())
-    {
-        return;
-    } // practically, nrows can't be the greater
-
     _time.conservativeResize(nrows, Eigen::NoChange);
     for (auto& p : *this)
     {
-- 
2.43.0


From d15f8fedf6734ef3316d6fbb2a54e9233d885d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 20/23] fix: a step as long as asked for up to rounding is not
 rejected for ever

A stepper that recommends 0.1 for a step from 0.2 to 0.30000000000000004 was
asked for the same step again and again.
---
 src/solver/simulator_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index bfc7719..c16458c 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -218,7 +218,9 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                 _stepper->step(minor_solver_step_cb, t1, _state_variables_orig, t2, _state_variables, new_h);
 
                 double h = t2 - t1;
-                if (force_accept || (new_h >= h) || (h <= min_time_step))
+                // t2 - t1 may differ from the step asked for by a rounding error
+                const double h_ok = std::max(min_time_step, new_h);
+                if (force_accept || (h_ok >= h) || (t1 + h_ok >= t2))
                 {
                     // accept this step
                     force_accept = false;
-- 
2.43.0


From a6aa2abf05963ac859abab96b5dacb872d447930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 21/23] fix: steps shorter than the distance of representable
 times still advance the time

---
 src/solver/simulator_base.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index c16458c..af6a514 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -15,6 +15,7 @@ COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER I
 OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 */
 
+#include <limits>
 #include <unordered_set>
 
 #include "simulator_base.hpp"
@@ -197,9 +198,13 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
             pooya_debug_verify0(min_time_step > 0);
             pooya_debug_verify0(max_time_step > min_time_step);
 
+            // a step is not shorter than the distance to the next representable time
+            auto add_step = [](double t, double h) -> double
+            { return std::max(t + h, std::nextafter(t, std::numeric_limits<double>::infinity())); };
+
             double new_h;
             double t1         = _t_prev;
-            double t2         = std::min(t1 + max_time_step, t);
+            double t2         = std::min(add_step(t1, max_time_step), t);
             bool force_accept = false;
             while (t1 < t)
             {
@@ -220,13 +225,13 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                 double h = t2 - t1;
                 // t2 - t1 may differ from the step asked for by a rounding error
                 const double h_ok = std::max(min_time_step, new_h);
-                if (force_accept || (h_ok >= h) || (t1 + h_ok >= t2))
+                if (force_accept || (h_ok >= h) || (add_step(t1, h_ok) >= t2))
                 {
                     // accept this step
                     force_accept = false;
                     new_h        = std::max(min_time_step, std::min(new_h, max_time_step));
                     t1           = t2;
-                    t2           = std::min(t1 + new_h, t);
+                    t2           = std::min(add_step(t1, new_h), t);
 
                     if (t1 < t)
                     {
@@ -239,7 +244,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     // redo this step
                     force_accept = new_h <= min_time_step;
                     new_h        = std::max(min_time_step, std::min(new_h, max_time_step));
-                    t2           = t1 + new_h;
+                    t2           = add_step(t1, new_h);
                 }
             }
         }
-- 
2.43.0


From 01c4d43428761a2d749791c4931d2b4c9822e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 22/23] fix: a run that throws does not repeat the steps the
 blocks have already taken

---
 src/solver/simulator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index af6a514..b52778f 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -237,6 +237,9 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     {
                         reset_with_state_variables(_state_variables);
                         process_model(t1, false, true);
+
+                        // the states have advanced to here, also if a later step throws
+                        _t_prev = t1;
                     }
                 }
                 else
-- 
2.43.0


From 1bde0b14eda55c17bb2977b7a785822d1bddc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 23/23] fix: an initialisation that throws does not count as
 done

---
 src/solver/fast_simulator.cpp | 3 +++
 src/solver/simulator.cpp      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index b95746b..3e6681f 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -45,6 +45,7 @@ void FastSimulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // until the model has been processed
 
     _processing_order.clear();
     _model._mark_unprocessed();
@@ -116,6 +117,8 @@ void FastSimulator::init(double t0)
     _processing_order.shrink_to_fit();
 
     _model.post_step(t0);
+
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 632e11b..584dd55 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -125,6 +125,7 @@ void Simulator::init(double t0)
     pooya_trace("t0: " + std::to_string(t0));
 
     SimulatorBase::init(t0);
+    _initialized = false; // until the model has been processed
 
     if (_reuse_order)
     {
@@ -154,6 +155,8 @@ void Simulator::init(double t0)
     }
 
     process_model(t0, true, true);
+
+    _initialized = true;
 }
 
 } // namespace pooya
-- 
2.43.0

