From a0a7964143f4b1871c6acaf7bb03584201b9aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 01/19] fix: join child threads before tearing down the
 workspace

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..1b42491 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Reset the instructions first: this waits for child threads that still use the workspaces.
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,13 +319,18 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
+  // Instructions are reset instead of torn down. This is done first, since it waits for child
+  // threads that still use the workspaces.
+  if (RootInstruction() != nullptr)
+  {
+    RootInstruction()->Reset(ui);
+  }
   m_workspace->Teardown();
   m_procedure_store->TearDownProcedures(ui);
   if (RootInstruction() == nullptr)
   {
     return;
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
   m_attribute_handler.ClearFailedConstraints();
 }
 
-- 
2.43.0


From 8467c107744f95abefe9a2365dd6cc8b396d3232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 02/19] fix: synchronise halting with the creation of user
 input requests

---
 src/lib/sup/oac-tree/instructions/input.cpp   | 22 ++++++++++++++-----
 src/lib/sup/oac-tree/instructions/input.h     |  2 ++
 .../sup/oac-tree/instructions/user_choice.cpp | 20 ++++++++++++++---
 .../sup/oac-tree/instructions/user_choice.h   |  2 ++
 .../instructions/user_confirmation.cpp        | 22 ++++++++++++++-----
 .../oac-tree/instructions/user_confirmation.h |  3 +++
 6 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..7f1dc07 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,20 +60,22 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    return false;  // the request is cancelled on destruction of the future
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
-  {
-    return ExecutionStatus::FAILURE;
-  }
   return PollInputFuture(ui, ws);
 }
 
@@ -83,16 +86,23 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
+  std::lock_guard<std::mutex> lk{m_future_mtx};
   m_future.reset();
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
+  std::unique_lock<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested() || !m_future)
+  {
+    return ExecutionStatus::FAILURE;
+  }
   if (!m_future->IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
   auto reply = m_future->GetValue();
+  lk.unlock();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..6ae6248 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..56ef345 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,16 +56,23 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    return false;  // the request is cancelled on destruction of the future
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
+  std::unique_lock<std::mutex> lk{m_future_mtx};
   if (IsHaltRequested() || !m_future)
   {
     return ExecutionStatus::FAILURE;
@@ -76,6 +84,7 @@ ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
       return ExecutionStatus::RUNNING;
     }
     auto reply = m_future->GetValue();
+    lk.unlock();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -95,6 +104,7 @@ ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
     m_choice = choice;
     return ExecutionStatus::NOT_FINISHED;  // TODO: remove this if we no longer need this...
   }
+  lk.unlock();
   auto selected = ChildInstructions()[m_choice];
   selected->ExecuteSingle(ui, ws);
   return selected->GetStatus();
@@ -109,7 +119,11 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    m_future.reset();
+  }
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..b805224 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,7 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +51,7 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..77a5c96 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,20 +70,22 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    return false;  // the request is cancelled on destruction of the future
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
-  {
-    return ExecutionStatus::FAILURE;
-  }
   return PollInputFuture(ui, ws);
 }
 
@@ -93,16 +96,23 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
+  std::lock_guard<std::mutex> lk{m_future_mtx};
   m_future.reset();
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
+  std::unique_lock<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested() || !m_future)
+  {
+    return ExecutionStatus::FAILURE;
+  }
   if (!m_future->IsReady())
   {
     return ExecutionStatus::RUNNING;
   }
   auto reply = m_future->GetValue();
+  lk.unlock();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..db1995c 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +46,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt() can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0


From 378e0a31015921c7b70991fb90659d55a6eaf1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 03/19] fix: keep the job interface alive until the procedure
 is destroyed

---
 src/lib/sup/oac-tree/runner/local_job.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/local_job.cpp b/src/lib/sup/oac-tree/runner/local_job.cpp
index e346906..e1d5984 100644
--- a/src/lib/sup/oac-tree/runner/local_job.cpp
+++ b/src/lib/sup/oac-tree/runner/local_job.cpp
@@ -34,8 +34,10 @@ struct LocalJob::LocalJobImpl
   LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io);
   ~LocalJobImpl() = default;
 
-  std::unique_ptr<Procedure> m_proc;
+  // The procedure may own child threads or pending user input requests that use the job interface:
+  // keep that interface alive until the procedure is destroyed.
   JobInterfaceAdapter m_job_interface;
+  std::unique_ptr<Procedure> m_proc;
 
   AsyncRunner m_runner;
   std::unique_ptr<JobInfo> m_job_info;
@@ -117,8 +119,8 @@ AsyncRunner& LocalJob::Runner()
 }
 
 LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io)
-  : m_proc{std::move(proc)}
-  , m_job_interface{*m_proc, job_info_io}
+  : m_job_interface{*proc, job_info_io}
+  , m_proc{std::move(proc)}
   , m_runner{*m_proc, m_job_interface}
   , m_job_info{}
   , m_ordered_instructions{}
-- 
2.43.0


From bb66a9652ee90b9ab20c61358d3c17f75eb7ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 04/19] fix: serialise variable reset with concurrent access

---
 src/lib/sup/oac-tree/variables/variable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..b58df89 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -89,6 +89,8 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
 
 void Variable::Reset(const Workspace& ws)
 {
+  // Reset can happen while other instructions are accessing the variable
+  std::lock_guard<std::mutex> lk(m_access_mutex);
   return ResetImpl(ws);
 }
 
-- 
2.43.0


From 2c19bdbfba9322ceb9e396ea5581adb265096f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 05/19] fix: do not lose a halt request when a child is reset
 for the next iteration

---
 src/lib/sup/oac-tree/instructions/for.cpp    | 5 +++++
 src/lib/sup/oac-tree/instructions/listen.cpp | 5 +++++
 src/lib/sup/oac-tree/instructions/repeat.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index 346cacc..4597602 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -107,6 +107,11 @@ ExecutionStatus ForInstruction::ExecuteSingleImpl(UserInterface& ui, Workspace&
   if (child_status == ExecutionStatus::SUCCESS)
   {
     ResetChild(ui);
+    // Resetting the child may have undone a halt request that arrived in the meantime
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::FAILURE;
+    }
   }
   ExecuteChild(ui, ws);
 
diff --git a/src/lib/sup/oac-tree/instructions/listen.cpp b/src/lib/sup/oac-tree/instructions/listen.cpp
index 875ed3d..f787a7a 100644
--- a/src/lib/sup/oac-tree/instructions/listen.cpp
+++ b/src/lib/sup/oac-tree/instructions/listen.cpp
@@ -71,6 +71,11 @@ ExecutionStatus Listen::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   if (IsFinishedStatus(child_status))
   {
     ResetChild(ui);
+    // Resetting the child may have undone a halt request that arrived in the meantime
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::FAILURE;
+    }
   }
   auto cache_changed = UpdateVariableCache(ws);
   if (!cache_changed)
diff --git a/src/lib/sup/oac-tree/instructions/repeat.cpp b/src/lib/sup/oac-tree/instructions/repeat.cpp
index 0d4a7d0..24311d9 100644
--- a/src/lib/sup/oac-tree/instructions/repeat.cpp
+++ b/src/lib/sup/oac-tree/instructions/repeat.cpp
@@ -69,6 +69,11 @@ ExecutionStatus Repeat::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   if (child_status == ExecutionStatus::SUCCESS)
   {
     ResetChild(ui);
+    // Resetting the child may have undone a halt request that arrived in the meantime
+    if (IsHaltRequested())
+    {
+      return ExecutionStatus::FAILURE;
+    }
   }
   ExecuteChild(ui, ws);
 
-- 
2.43.0


From 40d6316007e546bdb1e3af47a6a8ce7f4038c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 06/19] fix: forget triggered breakpoints when execution
 resumes

---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From 7c69fa3f7605708c593741835a8953cbe40893a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 07/19] fix: rearm triggered breakpoints when a procedure is
 reset

---
 src/lib/sup/oac-tree/runner.h                | 5 +++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 2 +-
 src/lib/sup/oac-tree/runner/runner.cpp       | 9 +++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/runner.h b/src/lib/sup/oac-tree/runner.h
index e86a039..55fcb05 100644
--- a/src/lib/sup/oac-tree/runner.h
+++ b/src/lib/sup/oac-tree/runner.h
@@ -141,6 +141,11 @@ public:
    */
   void Pause();
 
+  /**
+   * @brief Resets the procedure and rearms breakpoints that were released after being triggered.
+   */
+  void Reset();
+
   /**
    * @brief Query if procedure has finished.
    *
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index 1268140..fea0b0d 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -243,7 +243,7 @@ AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)
     case JobCommand::kPause:
       break;
     case JobCommand::kReset:
-      m_proc.Reset(m_ui);
+      m_runner.Reset();
       SetState(JobState::kInitial);
       break;
     case JobCommand::kHalt:
diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 43f9b82..5f7825d 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -140,6 +140,15 @@ void Runner::Pause()
   m_halt.store(true);
 }
 
+void Runner::Reset()
+{
+  if (m_proc)
+  {
+    m_proc->Reset(m_ui);
+    m_breakpoint_manager->ResetBreakpoints();
+  }
+}
+
 bool Runner::IsFinished() const
 {
   if (!m_proc)
-- 
2.43.0


From 5d362018204ea5b80040d707ef458c83395b978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 08/19] fix: do not lose updates in WaitForVariable

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..7602abc 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -162,19 +162,31 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
     return false;
   }
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  const auto deadline = std::chrono::steady_clock::now()
+    + std::chrono::duration_cast<std::chrono::steady_clock::duration>(timeout_duration);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
+  // The callback runs while the variable is locked, so mx cannot be held during IsAvailable().
+  while (it->second->IsAvailable() != availability)
+  {
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_until(lk, deadline, [&updated]{ return updated; }))
+    {
+      lk.unlock();
       return it->second->IsAvailable() == availability;
-    });
-  return it->second->IsAvailable() == availability;
+    }
+    updated = false;
+  }
+  return true;
 }
 
 std::vector<const Variable*> Workspace::GetVariables() const
-- 
2.43.0


From 059cc86b38dbe08c5d64a346f3148254058a3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 09/19] fix: measure timeouts with a clock that cannot be set

Waiting instructions used the system clock, so that setting it made them end
early or (much) too late.
---
 src/lib/sup/oac-tree/base/generic_utils.cpp              | 8 ++++++++
 src/lib/sup/oac-tree/generic_utils.h                     | 6 ++++++
 src/lib/sup/oac-tree/instructions/wait.cpp               | 6 +++---
 src/lib/sup/oac-tree/instructions/wait_for_variable.cpp  | 4 ++--
 src/lib/sup/oac-tree/instructions/wait_for_variables.cpp | 4 ++--
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index 2ab0d1f..d5d9fd9 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -132,6 +132,14 @@ unsigned long long GetNanosecsSinceEpoch()
   return ns.count();
 }
 
+unsigned long long GetMonotonicNanosecs()
+{
+  auto now = std::chrono::steady_clock::now();
+  auto ns = std::chrono::duration_cast<std::chrono::duration<unsigned long long, std::nano>>(
+    now.time_since_epoch());
+  return ns.count();
+}
+
 }  // namespace utils
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/generic_utils.h b/src/lib/sup/oac-tree/generic_utils.h
index 33f4fa3..5f26527 100644
--- a/src/lib/sup/oac-tree/generic_utils.h
+++ b/src/lib/sup/oac-tree/generic_utils.h
@@ -45,6 +45,12 @@ std::string GetEnvironmentVariable(const std::string& varname);
 
 unsigned long long GetNanosecsSinceEpoch();
 
+/**
+ * @brief Nanoseconds on a clock that is not affected by changes of the system time. Use this to
+ * measure timeouts.
+ */
+unsigned long long GetMonotonicNanosecs();
+
 }  // namespace utils
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/instructions/wait.cpp b/src/lib/sup/oac-tree/instructions/wait.cpp
index b094e06..2a3b426 100644
--- a/src/lib/sup/oac-tree/instructions/wait.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait.cpp
@@ -69,7 +69,7 @@ bool Wait::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
+  m_finish = utils::GetMonotonicNanosecs() + timeout_ns;
   return true;
 }
 
@@ -79,12 +79,12 @@ ExecutionStatus Wait::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   (void)ws;
   if (m_blocking)
   {
-    while (!IsHaltRequested() && m_finish > utils::GetNanosecsSinceEpoch())
+    while (!IsHaltRequested() && m_finish > utils::GetMonotonicNanosecs())
     {
       std::this_thread::sleep_for(std::chrono::nanoseconds(m_timing_accuracy_ns));
     }
   }
-  auto now = utils::GetNanosecsSinceEpoch();
+  auto now = utils::GetMonotonicNanosecs();
   if (!IsHaltRequested() && m_finish > now)
   {
     return ExecutionStatus::RUNNING;
diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variable.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variable.cpp
index 8cb971a..dd3aba6 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variable.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variable.cpp
@@ -57,7 +57,7 @@ bool WaitForVariable::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
+  m_finish = utils::GetMonotonicNanosecs() + timeout_ns;
   return true;
 }
 
@@ -72,7 +72,7 @@ ExecutionStatus WaitForVariable::ExecuteSingleImpl(UserInterface& ui, Workspace&
   {
     return ExecutionStatus::SUCCESS;
   }
-  auto now = utils::GetNanosecsSinceEpoch();
+  auto now = utils::GetMonotonicNanosecs();
   if (m_finish > now)
   {
     return ExecutionStatus::RUNNING;
diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
index d2cded5..2b27a24 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
@@ -68,7 +68,7 @@ bool WaitForVariables::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
+  m_finish = utils::GetMonotonicNanosecs() + timeout_ns;
   const auto var_type = GetAttributeString(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME);
   m_var_names = GetVarNamesOfType(ws, var_type);
   return true;
@@ -85,7 +85,7 @@ ExecutionStatus WaitForVariables::ExecuteSingleImpl(UserInterface& ui, Workspace
   {
     return ExecutionStatus::SUCCESS;
   }
-  auto now = utils::GetNanosecsSinceEpoch();
+  auto now = utils::GetMonotonicNanosecs();
   if (m_finish > now)
   {
     return ExecutionStatus::RUNNING;
-- 
2.43.0


From bf62fea842af8e0ac10f71be6139870fa3884361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:26 +0000
Subject: [PATCH 10/19] fix: wake all clients that wait for user input

With several clients waiting for different requests, a reply could wake only
the wrong one, and the right one went on waiting until its time-out.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..74aa2be 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From 550d5da4ff285fb20e5f54529e28608923474787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 11/19] fix: report existing directories as created, whoever
 creates them

---
 src/lib/sup/oac-tree/base/generic_utils.cpp | 46 ++++++++++++---------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index d5d9fd9..8f43e5a 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -28,6 +28,7 @@
 #include <sup/dto/anyvalue.h>
 #include <sup/dto/json_value_parser.h>
 
+#include <cerrno>
 #include <chrono>
 #include <cstdlib>
 #include <dlfcn.h>
@@ -49,6 +50,21 @@ public:
 private:
   std::ifstream m_file_stream;
 };
+
+// Return true if the directory was created or already exists (e.g. by concurrent creation).
+bool MakeSingleDir(const std::string& pathname, unsigned mode)
+{
+  if (::mkdir(pathname.c_str(), mode) == 0)
+  {
+    return true;
+  }
+  if (errno != EEXIST)
+  {
+    return false;
+  }
+  struct stat info;
+  return ::stat(pathname.c_str(), &info) == 0 && S_ISDIR(info.st_mode);
+}
 }
 
 namespace sup
@@ -93,29 +109,21 @@ bool CreateDir(const std::string& pathname, unsigned mode)
   {
     return false;
   }
-  if (::mkdir(pathname.c_str(), mode) == -1)
+  if (MakeSingleDir(pathname, mode))
   {
-    switch (errno)
-    {
-      case ENOENT:
-        // parent folder doesn't exist, so try to create it
-        if (CreateDir(pathname.substr(0, pathname.find_last_of('/'))))
-        {
-          return ::mkdir(pathname.c_str(), mode) == 0;
-        }
-        break;
-      case EEXIST:
-        // the folder already exists, so success
-        return true;
-      default:
-        return false;
-    }
+    return true;
   }
-  else
+  if (errno != ENOENT)
   {
-    return true;
+    return false;
+  }
+  // parent folder doesn't exist, so try to create it
+  auto pos = pathname.find_last_of('/');
+  if (pos == std::string::npos || !CreateDir(pathname.substr(0, pos)))
+  {
+    return false;
   }
-  return false;
+  return MakeSingleDir(pathname, mode);
 }
 
 std::string GetEnvironmentVariable(const std::string& varname)
-- 
2.43.0


From f7685a168eace3aa0c445b75b0cfe19ea111d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 12/19] fix: protect instruction states against concurrent
 updates

---
 src/lib/sup/oac-tree/job_interface_adapter.h          | 4 ++++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..d72e52b 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -65,6 +66,9 @@ public:
 private:
   JobMap m_job_map;
   std::vector<InstructionState> m_instr_states;
+  // Instructions are updated from multiple threads: protects the states and keeps their reports in
+  // order. Recursive, because an observer may change breakpoints from within such a report.
+  std::recursive_mutex m_instr_states_mtx;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
 };
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..23aa23b 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -42,6 +42,7 @@ using namespace std::placeholders;
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
   , m_instr_states{}
+  , m_instr_states_mtx{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
                     std::bind(&ForwardInterrupt, std::ref(m_job_info_io), _1)}
@@ -72,6 +73,7 @@ void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
   auto status = instruction->GetStatus();
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
@@ -115,6 +117,7 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::recursive_mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From 554c1a2fb2fc68b48eab7330c0dc8ef986143f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 13/19] fix: report concurrent breakpoint changes in the order
 they are made

---
 src/lib/sup/oac-tree/async_runner.h          | 5 +++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/sup/oac-tree/async_runner.h b/src/lib/sup/oac-tree/async_runner.h
index 19a27c7..e0f32a4 100644
--- a/src/lib/sup/oac-tree/async_runner.h
+++ b/src/lib/sup/oac-tree/async_runner.h
@@ -32,6 +32,7 @@
 #include <sup/oac-tree/user_interface.h>
 
 #include <future>
+#include <mutex>
 
 namespace sup
 {
@@ -115,6 +116,10 @@ private:
 
   JobStateMonitor& m_state_monitor;
 
+  // Keeps the reports of concurrent breakpoint changes in the order of these changes. Recursive,
+  // because the monitor may change breakpoints from within such a report.
+  std::recursive_mutex m_breakpoint_mtx;
+
   JobCommandQueue m_command_queue;
 
   /**
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index fea0b0d..cd26d15 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -36,6 +36,7 @@ AsyncRunner::AsyncRunner(Procedure& proc, UserInterface& ui, JobStateMonitor& st
   , m_ui{ui}
   , m_runner{m_ui}
   , m_state_monitor{state_monitor}
+  , m_breakpoint_mtx{}
   , m_command_queue{}
   , m_command_handler{}
   , m_loop_future{}
@@ -56,6 +57,7 @@ AsyncRunner::~AsyncRunner()
 
 void AsyncRunner::SetBreakpoint(const Instruction* instruction)
 {
+  std::lock_guard<std::recursive_mutex> lk{m_breakpoint_mtx};
   try
   {
     if (m_runner.SetBreakpoint(instruction))
@@ -71,6 +73,7 @@ void AsyncRunner::SetBreakpoint(const Instruction* instruction)
 
 void AsyncRunner::RemoveBreakpoint(const Instruction* instruction)
 {
+  std::lock_guard<std::recursive_mutex> lk{m_breakpoint_mtx};
   if (m_runner.RemoveBreakpoint(instruction))
   {
     m_state_monitor.OnBreakpointChange(instruction, false);
-- 
2.43.0


From a434b3463d345d0996de52f7617ac5ea5473027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 14/19] fix: try again to start the thread of a parallel child

---
 src/lib/sup/oac-tree/instructions/async_wrapper.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/async_wrapper.cpp b/src/lib/sup/oac-tree/instructions/async_wrapper.cpp
index 57c9e39..6d4c6e4 100644
--- a/src/lib/sup/oac-tree/instructions/async_wrapper.cpp
+++ b/src/lib/sup/oac-tree/instructions/async_wrapper.cpp
@@ -24,6 +24,7 @@
 
 #include <chrono>
 #include <functional>
+#include <system_error>
 
 namespace sup
 {
@@ -86,8 +87,16 @@ bool AsyncWrapper::UpdateStatus()
 
 void AsyncWrapper::LaunchChild(UserInterface& ui, Workspace& ws)
 {
-  m_child_result = std::async(std::launch::async, &Instruction::ExecuteSingle,
-                              m_instruction, std::ref(ui), std::ref(ws));
+  try
+  {
+    m_child_result = std::async(std::launch::async, &Instruction::ExecuteSingle,
+                                m_instruction, std::ref(ui), std::ref(ws));
+  }
+  catch (const std::system_error&)
+  {
+    // No thread could be started: the child's status did not change, so it will be launched again
+    // during one of the next ticks.
+  }
 }
 
 }  // namespace oac_tree
-- 
2.43.0


From c89c9091480bc7d1773ced05b0d77fb7f4b80c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 15/19] fix: wake all threads that wait for a job's state

---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 54662a01d0842464e47182eb4e2422b21a685d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 16/19] fix: let the command-line program accept int64 and
 8-bit integers from the user

---
 src/app/oac-tree-cli/cl_interface.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..7d34fcb 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,6 +30,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 
@@ -253,6 +254,26 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   return true;
 }
 
+/**
+ * Stream extraction treats 8-bit integers as characters, so these are parsed as wider integers first.
+ */
+template <typename T>
+bool ParserFunctionSmallIntT(sup::dto::AnyValue &value, const std::string &str)
+{
+  sup::dto::AnyValue wide_value{};
+  if (!ParserFunctionT<sup::dto::int32>(wide_value, str))
+  {
+    return false;
+  }
+  const auto val = wide_value.As<sup::dto::int32>();
+  if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
 template <>
 bool ParserFunctionT<std::string>(sup::dto::AnyValue &value, const std::string &str)
 {
@@ -265,12 +286,13 @@ static std::map<std::string, ParseFunction> CreateParserMap()
   std::map<std::string, ParseFunction> parser_map;
   parser_map["bool"] = ParserFunctionT<sup::dto::boolean>;
   parser_map["char8"] = ParserFunctionT<sup::dto::char8>;
-  parser_map["int8"] = ParserFunctionT<sup::dto::int8>;
-  parser_map["uint8"] = ParserFunctionT<sup::dto::uint8>;
+  parser_map["int8"] = ParserFunctionSmallIntT<sup::dto::int8>;
+  parser_map["uint8"] = ParserFunctionSmallIntT<sup::dto::uint8>;
   parser_map["int16"] = ParserFunctionT<sup::dto::int16>;
   parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
   parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
   parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = ParserFunctionT<sup::dto::int64>;
   parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
-- 
2.43.0


From 315f86cf3c736100d509b64b0bd98c9f2f6cae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 17/19] fix: a reset does not set up the workspaces of files
 that are only included from

Procedures that are loaded because instructions of them are included do not get their workspace set
up when the including procedure is set up. Resetting the procedure did set them up.
---
 src/lib/sup/oac-tree/procedure/procedure_store.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/procedure/procedure_store.cpp b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
index 267e686..8c4377c 100644
--- a/src/lib/sup/oac-tree/procedure/procedure_store.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
@@ -64,6 +64,11 @@ void ProcedureStore::ResetProcedureWorkspaces(UserInterface& ui) const
   for (auto& [_, procedure] : m_procedure_cache)
   {
     auto& ws = procedure->GetWorkspace();
+    // Procedures of which only instructions are included do not have their workspace set up.
+    if (!ws.IsSuccessfullySetup())
+    {
+      continue;
+    }
     ws.Teardown();
     ws.Setup();
   }
-- 
2.43.0


From 18ab2b5f76a7279d1e688f65b68100232cafdddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 18/19] fix: a plugin registers its types while other threads
 read the registries without synchronisation

---
 src/lib/sup/oac-tree/instruction_registry.h   |  5 +++++
 .../instructions/instruction_registry.cpp     | 22 +++++++++++++------
 src/lib/sup/oac-tree/variable_registry.h      |  6 +++++
 .../oac-tree/variables/variable_registry.cpp  | 22 +++++++++++++------
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/lib/sup/oac-tree/instruction_registry.h b/src/lib/sup/oac-tree/instruction_registry.h
index 5a1f9b4..b953e69 100644
--- a/src/lib/sup/oac-tree/instruction_registry.h
+++ b/src/lib/sup/oac-tree/instruction_registry.h
@@ -25,6 +25,7 @@
 
 #include <map>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -77,6 +78,10 @@ private:
    */
   std::map<std::string, InstructionConstructor> m_instruction_map;
 
+  /**
+   * @brief Protects the map: a plugin registers its types while other threads create objects.
+   */
+  mutable std::mutex m_mutex;
 };
 
 InstructionRegistry &GlobalInstructionRegistry();
diff --git a/src/lib/sup/oac-tree/instructions/instruction_registry.cpp b/src/lib/sup/oac-tree/instructions/instruction_registry.cpp
index 25a444c..0bde70e 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_registry.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_registry.cpp
@@ -86,6 +86,7 @@ InstructionRegistry& GlobalInstructionRegistry()
 
 bool InstructionRegistry::RegisterInstruction(std::string name, InstructionConstructor constructor)
 {
+  std::lock_guard<std::mutex> lk{m_mutex};
   auto it = m_instruction_map.find(name);
   if (it != m_instruction_map.end())
   {
@@ -100,20 +101,26 @@ bool InstructionRegistry::RegisterInstruction(std::string name, InstructionConst
 
 std::unique_ptr<Instruction> InstructionRegistry::Create(const std::string& name)
 {
-  auto entry = m_instruction_map.find(name);
-  if (entry == m_instruction_map.end())
+  InstructionConstructor constructor = nullptr;
   {
-    std::string error_message =
-      "InstructionRegistry::Create(): trying to create unregistered instruction "
-      "with name [" + name + "]";
-    throw InvalidOperationException(error_message);
+    std::lock_guard<std::mutex> lk{m_mutex};
+    auto entry = m_instruction_map.find(name);
+    if (entry == m_instruction_map.end())
+    {
+      std::string error_message =
+        "InstructionRegistry::Create(): trying to create unregistered instruction "
+        "with name [" + name + "]";
+      throw InvalidOperationException(error_message);
+    }
+    constructor = entry->second;
   }
-  return std::unique_ptr<Instruction>(entry->second());
+  return std::unique_ptr<Instruction>(constructor());
 }
 
 std::vector<std::string> InstructionRegistry::RegisteredInstructionNames() const
 {
   std::vector<std::string> result;
+  std::lock_guard<std::mutex> lk{m_mutex};
   for (const auto& [instruction_name, _] : m_instruction_map)
   {
     result.push_back(instruction_name);
@@ -123,6 +130,7 @@ std::vector<std::string> InstructionRegistry::RegisteredInstructionNames() const
 
 bool InstructionRegistry::IsRegisteredInstructionName(const std::string& name) const
 {
+  std::lock_guard<std::mutex> lk{m_mutex};
   auto it = m_instruction_map.find(name);
   return it != m_instruction_map.end();
 }
diff --git a/src/lib/sup/oac-tree/variable_registry.h b/src/lib/sup/oac-tree/variable_registry.h
index 1a85324..2377881 100644
--- a/src/lib/sup/oac-tree/variable_registry.h
+++ b/src/lib/sup/oac-tree/variable_registry.h
@@ -25,6 +25,7 @@
 
 #include <map>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -75,6 +76,11 @@ private:
    * @brief Map between Variable typename and its constructor.
    */
   std::map<std::string, VariableConstructor> m_variable_map;
+
+  /**
+   * @brief Protects the map: a plugin registers its types while other threads create objects.
+   */
+  mutable std::mutex m_mutex;
 };
 
 VariableRegistry &GlobalVariableRegistry();
diff --git a/src/lib/sup/oac-tree/variables/variable_registry.cpp b/src/lib/sup/oac-tree/variables/variable_registry.cpp
index 3762946..e106b19 100644
--- a/src/lib/sup/oac-tree/variables/variable_registry.cpp
+++ b/src/lib/sup/oac-tree/variables/variable_registry.cpp
@@ -48,6 +48,7 @@ VariableRegistry& GlobalVariableRegistry()
 
 bool VariableRegistry::RegisterVariable(std::string name, VariableConstructor constructor)
 {
+  std::lock_guard<std::mutex> lk{m_mutex};
   auto it = m_variable_map.find(name);
   if (it != m_variable_map.end())
   {
@@ -62,20 +63,26 @@ bool VariableRegistry::RegisterVariable(std::string name, VariableConstructor co
 
 std::unique_ptr<Variable> VariableRegistry::Create(std::string name)
 {
-  auto entry = m_variable_map.find(name);
-  if (entry == m_variable_map.end())
+  VariableConstructor constructor = nullptr;
   {
-    std::string error_message =
-      "VariableRegistry::Create(): trying to create unregistered variable "
-      "with name [" + name + "]";
-    throw InvalidOperationException(error_message);
+    std::lock_guard<std::mutex> lk{m_mutex};
+    auto entry = m_variable_map.find(name);
+    if (entry == m_variable_map.end())
+    {
+      std::string error_message =
+        "VariableRegistry::Create(): trying to create unregistered variable "
+        "with name [" + name + "]";
+      throw InvalidOperationException(error_message);
+    }
+    constructor = entry->second;
   }
-  return std::unique_ptr<Variable>(entry->second());
+  return std::unique_ptr<Variable>(constructor());
 }
 
 std::vector<std::string> VariableRegistry::RegisteredVariableNames() const
 {
   std::vector<std::string> result;
+  std::lock_guard<std::mutex> lk{m_mutex};
   for (const auto& [variable_name, _] : m_variable_map)
   {
     result.push_back(variable_name);
@@ -85,6 +92,7 @@ std::vector<std::string> VariableRegistry::RegisteredVariableNames() const
 
 bool VariableRegistry::IsRegisteredVariableName(const std::string& name) const
 {
+  std::lock_guard<std::mutex> lk{m_mutex};
   auto it = m_variable_map.find(name);
   return it != m_variable_map.end();
 }
-- 
2.43.0


From 75a02e5da034743a6fa23da54ac50a5476d4b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 19/19] fix: reactive sequences and fallbacks interrupt
 children still running in their own threads when they end

---
 src/lib/sup/oac-tree/instructions/reactive_fallback.cpp | 8 +++++++-
 src/lib/sup/oac-tree/instructions/reactive_sequence.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
index 421b845..035c582 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
@@ -57,7 +57,13 @@ ExecutionStatus ReactiveFallback::ExecuteSingleImpl(UserInterface& ui, Workspace
       break;
     }
   }
-  return CalculateCompoundStatus();
+  auto status = CalculateCompoundStatus();
+  if (IsFinishedStatus(status))
+  {
+    // Interrupt children that are still running in their own threads:
+    Halt();
+  }
+  return status;
 }
 
 std::vector<const Instruction*> ReactiveFallback::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
index f5215b6..773a876 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
@@ -57,7 +57,13 @@ ExecutionStatus ReactiveSequence::ExecuteSingleImpl(UserInterface& ui, Workspace
       break;
     }
   }
-  return CalculateCompoundStatus();
+  auto status = CalculateCompoundStatus();
+  if (IsFinishedStatus(status))
+  {
+    // Interrupt children that are still running in their own threads:
+    Halt();
+  }
+  return status;
 }
 
 std::vector<const Instruction*> ReactiveSequence::NextInstructionsImpl() const
-- 
2.43.0

