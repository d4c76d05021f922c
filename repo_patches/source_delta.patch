From 4cffcb4da44f2e7e6c36700dfd0ef92cfe757576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:35 +0000
Subject: [PATCH 01/58] fix: answer DAP requests that arrive while no debugging
 session is active

Handlers returned silently when no debugger existed, leaving the client waiting for a response forever.
---
 language_server/src/dap/dap_feature.cpp | 32 +++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..875f3f1 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -44,6 +44,14 @@ std::string convert_path(const std::string& path, path_format path_format)
 
 constexpr const int THREAD_ID = 1;
 
+// DAP expects every request to be answered, even when there is nothing to debug.
+void respond_no_session(hlasm_plugin::language_server::response_provider& response,
+    const nlohmann::json& request_seq,
+    const std::string& command)
+{
+    response.respond_error(request_seq, command, 0, "No debugging session is active.", nlohmann::json());
+}
+
 } // namespace
 
 namespace hlasm_plugin::language_server::dap {
@@ -119,7 +127,10 @@ void dap_feature::on_disconnect(const json& request_seq, const json&)
 void dap_feature::on_launch(const json& request_seq, const json& args)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "launch");
         return;
+    }
 
     // wait for configurationDone?
     std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
@@ -134,7 +145,10 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
 void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "setBreakpoints");
         return;
+    }
 
     json breakpoints_verified = json::array();
 
@@ -179,7 +193,10 @@ void dap_feature::on_threads(const json& request_seq, const json&)
 void dap_feature::on_stack_trace(const json& request_seq, const json&)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "stackTrace");
         return;
+    }
 
     nlohmann::json frames_json = json::array();
 
@@ -204,7 +221,10 @@ void dap_feature::on_stack_trace(const json& request_seq, const json&)
 void dap_feature::on_scopes(const json& request_seq, const json& args)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "scopes");
         return;
+    }
 
     nlohmann::json scopes_json = json::array();
 
@@ -225,7 +245,10 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 void dap_feature::on_next(const json& request_seq, const json&)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "next");
         return;
+    }
 
     debugger->next();
 
@@ -235,7 +258,10 @@ void dap_feature::on_next(const json& request_seq, const json&)
 void dap_feature::on_step_in(const json& request_seq, const json&)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "stepIn");
         return;
+    }
 
     debugger->step_in();
     response_->respond(request_seq, "stepIn", json());
@@ -244,7 +270,10 @@ void dap_feature::on_step_in(const json& request_seq, const json&)
 void dap_feature::on_variables(const json& request_seq, const json& args)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "variables");
         return;
+    }
 
     nlohmann::json variables_json = json::array();
 
@@ -288,7 +317,10 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 void dap_feature::on_continue(const json& request_seq, const json&)
 {
     if (!debugger)
+    {
+        respond_no_session(*response_, request_seq, "continue");
         return;
+    }
 
     debugger->continue_debug();
 
-- 
2.43.0


From b4734872f989b9f6ed86fe0a1180da459c8923ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:46 +0000
Subject: [PATCH 02/58] fix: process LSP requests and notifications that omit
 params

JSON-RPC allows params to be left out; shutdown and exit have none, yet they were dropped and never answered.
---
 language_server/src/lsp/lsp_server.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..a973eac 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -83,23 +83,27 @@ void server::message_received(const json& message)
     auto params_found = message.find("params");
     auto method_found = message.find("method");
 
-    if (params_found == message.end() || method_found == message.end())
+    if (method_found == message.end())
     {
-        LOG_WARNING("Method or params missing from received request or notification");
+        LOG_WARNING("Method missing from received request or notification");
         return;
     }
 
+    // the params member may be omitted (e.g. shutdown and exit have no parameters)
+    const json no_params;
+    const json& params = params_found == message.end() ? no_params : params_found.value();
+
     try
     {
         if (id_found == message.end())
         {
             // notification
-            call_method(method_found.value().get<std::string>(), "", params_found.value());
+            call_method(method_found.value().get<std::string>(), "", params);
         }
         else
         {
             // method
-            call_method(method_found.value().get<std::string>(), id_found.value(), params_found.value());
+            call_method(method_found.value().get<std::string>(), id_found.value(), params);
         }
     }
     catch (const std::exception& e)
-- 
2.43.0


From 2e37509514c22f51822b71327589d21dca31e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:01 +0000
Subject: [PATCH 03/58] fix: check that members of received JSON messages exist
 before reading them

operator[] on a const json value is undefined behaviour when the key is missing, so a message without an expected
member could crash the server. at() reports it as a JSON error, which the dispatcher already handles.
---
 language_server/src/dap/dap_feature.cpp       | 18 ++++++-------
 language_server/src/feature.cpp               |  6 ++---
 .../src/lsp/feature_language_features.cpp     | 26 +++++++++++--------
 .../src/lsp/feature_text_synchronization.cpp  |  8 +++---
 .../src/lsp/feature_workspace_folders.cpp     | 14 +++++-----
 5 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index 875f3f1..cc5bfb7 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -105,9 +105,9 @@ void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
     response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
 
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    line_1_based_ = args.at("linesStartAt1").get<bool>() ? 1 : 0;
+    column_1_based_ = args.at("columnsStartAt1").get<bool>() ? 1 : 0;
+    path_format_ = args.at("pathFormat").get<std::string>() == "path" ? path_format::PATH : path_format::URI;
 
     debugger.emplace();
 
@@ -133,8 +133,8 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
     }
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.at("stopOnEntry").get<bool>();
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -152,14 +152,14 @@ void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -228,7 +228,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -277,7 +277,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..3b92ce9 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..80d3dee 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,9 +78,10 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(
+            params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
@@ -93,9 +94,10 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(
+            params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +110,10 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(
+            params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +169,12 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(
+            params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    int trigger_kind_int = params.at("context").at("triggerKind").get<int>();
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +182,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = params.at("context").at("triggerCharacter").get<std::string>()[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +240,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..fd38fc7 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,7 +55,7 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
+    json text_doc = params.at("textDocument");
     std::string doc_uri = text_doc["uri"].get<std::string>();
     auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
     std::string text = text_doc["text"].get<std::string>();
@@ -73,12 +73,12 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
+    json text_doc = params.at("textDocument");
     std::string doc_uri = text_doc["uri"].get<std::string>();
 
     auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
@@ -104,7 +104,7 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..04a7bd0 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.at("capabilities");
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -68,7 +68,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
     if (ws_folders_support)
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        add_workspaces(initialize_params.at("workspaceFolders"));
         return;
     }
 
@@ -92,8 +92,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +103,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -125,7 +125,7 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
-- 
2.43.0


From ade9ac0d0a583f68f12cd9ee2a219e2ba9a33461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:26 +0000
Subject: [PATCH 04/58] fix: keep the debugger's variable mutex locked when
 disconnecting at a stop

When the disconnect request arrived between releasing variable_mtx_ and
acquiring control_mtx, the analyzer thread returned to the analyzer without
owning variable_mtx_, accessed the debugging data unprotected and finally
unlocked a mutex it did not own.
---
 parser_library/src/debugging/debugger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..b031cf7 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -193,7 +193,10 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                variable_mtx_.lock();
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
             next_stmt_range_ = stmt_range;
-- 
2.43.0


From 58c7a5df5f711bc9ec66c7bda20f965d06d83ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:26 +0000
Subject: [PATCH 05/58] fix: make the debugger's disconnected flag atomic

It is written by the thread serving DAP requests and read by the analyzer
thread without any common lock.
---
 parser_library/src/debugging/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index b031cf7..30ef76c 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -95,7 +95,7 @@ class debugger::impl final : public processing::statement_analyzer
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
-- 
2.43.0


From a23fee3f3b1f49fc448fa164fe50bc536dea810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:26 +0000
Subject: [PATCH 06/58] fix: do not lose the wake up of a continued debugging
 session

continue_debug changed the condition the analyzer waits for without holding
the mutex, so the notification could be sent between the evaluation of the
condition and the start of waiting, leaving the analyzer stopped forever.
---
 parser_library/src/debugging/debugger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 30ef76c..b33ab5e 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -252,8 +252,11 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0


From 38ac3650840a5772a2108d8742ca570a5b9b68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:26 +0000
Subject: [PATCH 07/58] fix: do not access the analyzer's context when stepping
 over

next() evaluated the size of the processing stack of the analyzer running in
the other thread, and used it even when the analysis has already ended and
the context was destroyed (or has not been created yet).
---
 parser_library/src/debugging/debugger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index b33ab5e..0f3d1c1 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -89,10 +89,12 @@ class debugger::impl final : public processing::statement_analyzer
     // Specifies whether the debugger stops on the next statement call.
     std::atomic<bool> stop_on_next_stmt_ = false;
     std::atomic<bool> step_over_ = false;
-    size_t step_over_depth_ = 0;
+    std::atomic<size_t> step_over_depth_ = 0;
 
     // Range of statement that is about to be processed by analyzer.
     range next_stmt_range_;
+    // Depth of the processing stack at the last stop.
+    size_t stopped_depth_ = 0;
 
     // True, if disconnect request was received
     std::atomic<bool> disconnected_ = false;
@@ -189,6 +191,7 @@ public:
             stack_frames_.clear();
             scopes_.clear();
             proc_stack_ = ctx_->processing_stack();
+            const auto depth = proc_stack_.size();
             variable_mtx_.unlock();
 
             std::unique_lock<std::mutex> lck(control_mtx);
@@ -200,6 +203,7 @@ public:
             stop_on_next_stmt_ = false;
             step_over_ = false;
             next_stmt_range_ = stmt_range;
+            stopped_depth_ = depth;
 
             continue_ = false;
             if (event_)
@@ -217,7 +221,7 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
+            step_over_depth_ = stopped_depth_;
             continue_ = true;
         }
         con_var.notify_all();
-- 
2.43.0


From b7216887a2a285c7501a88fa4fe8090ccee94aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 08/58] fix: do not terminate the server when the debugged
 analysis throws

An exception leaving the analyzer thread of the debugger called
std::terminate. It also left debug_ended_ unset while the context was gone.
---
 parser_library/src/debugging/debugger.cpp | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 0f3d1c1..91b4c60 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -138,21 +138,28 @@ public:
             std::lock_guard<std::mutex> guard(variable_mtx_); // Lock the mutex while analyzer is running, unlock once
                                                               // it is stopped and waiting in the statement method
 
-            std::optional<debug_lib_provider> provider;
-            if (!lib_provider)
-                provider.emplace(workspace);
+            try
+            {
+                std::optional<debug_lib_provider> provider;
+                if (!lib_provider)
+                    provider.emplace(workspace);
 
-            analyzer a(
-                open_code->get_text(), open_code->get_file_name(), lib_provider ? *lib_provider : provider.value());
+                analyzer a(
+                    open_code->get_text(), open_code->get_file_name(), lib_provider ? *lib_provider : provider.value());
 
-            a.register_stmt_analyzer(this);
+                a.register_stmt_analyzer(this);
 
-            ctx_ = a.context().hlasm_ctx.get();
+                ctx_ = a.context().hlasm_ctx.get();
 
-            a.analyze(&cancel_);
+                a.analyze(&cancel_);
 
-            if (!disconnected_ && event_)
-                event_->exited(0);
+                if (!disconnected_ && event_)
+                    event_->exited(0);
+            }
+            catch (...)
+            {
+                // failure of the analysis must not terminate the whole server
+            }
             debug_ended_ = true;
         });
     }
-- 
2.43.0


From eb2559469003580358c6dfb730af84a2f7885c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 09/58] fix: do not terminate the server when processing of a
 request throws

An exception leaving message_received (e.g. thrown while a file is parsed or
when a response handler is given malformed data) ended the worker thread
with std::terminate.
---
 language_server/src/request_manager.cpp | 23 +++++++++++++++++++++--
 language_server/src/request_manager.h   |  1 +
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..7fe23f9 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -14,6 +14,8 @@
 
 #include "request_manager.h"
 
+#include "logger.h"
+
 using namespace hlasm_plugin::language_server;
 
 request::request(json message, server* executing_server)
@@ -104,12 +106,29 @@ void request_manager::handle_request_(const std::atomic<bool>* end_loop)
         // unlock the mutex, main thread may add new requests
         lock.unlock();
         // handle the request
-        to_run.executing_server->message_received(to_run.message);
+        process_request_(to_run);
 
         currently_running_server_ = nullptr;
     }
 }
 
+void request_manager::process_request_(const request& to_run) noexcept
+{
+    try
+    {
+        to_run.executing_server->message_received(to_run.message);
+    }
+    catch (const std::exception& e)
+    {
+        (void)e;
+        LOG_ERROR(std::string("Request processing failed: ") + e.what());
+    }
+    catch (...)
+    {
+        LOG_ERROR("Request processing failed with unknown exception.");
+    }
+}
+
 void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
@@ -130,7 +149,7 @@ void request_manager::finish_server_requests(server* to_finish)
         if (req.executing_server != to_finish)
             continue;
 
-        req.executing_server->message_received(req.message);
+        process_request_(req);
     }
     // remove the executed requests
     requests_.erase(
diff --git a/language_server/src/request_manager.h b/language_server/src/request_manager.h
index d6dc2d4..c9850b7 100644
--- a/language_server/src/request_manager.h
+++ b/language_server/src/request_manager.h
@@ -66,6 +66,7 @@ private:
     std::atomic<server*> currently_running_server_ = nullptr;
 
     void handle_request_(const std::atomic<bool>* end_loop);
+    static void process_request_(const request& to_run) noexcept;
     std::string get_request_file_(json r, bool* is_parsing_required = nullptr) const;
 
     std::deque<request> requests_;
-- 
2.43.0


From 2be638ab44df03581e56eed1aa7a694254e5375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 10/58] fix: tolerate malformed textDocument messages in the
 request queue

A textDocument message without params.textDocument.uri (or with a method that
is not a string) threw a JSON exception in the thread that queues requests,
or in the worker thread, which ended the language server.
---
 language_server/src/request_manager.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 7fe23f9..8459c51 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -165,9 +165,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
         if (is_parsing_required)
@@ -177,7 +177,15 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        // the message was not validated yet
+        try
+        {
+            return r.at("params").at("textDocument").at("uri").get<std::string>();
+        }
+        catch (const json::exception&)
+        {
+            return std::string();
+        }
     }
     return std::string();
-}
\ No newline at end of file
+}
-- 
2.43.0


From 4fee4398b4066fad7a2b902030805e0e2bdc3d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 11/58] fix: check for a missing cancellation token when a
 request is added

The token is optional everywhere else in the request manager.
---
 language_server/src/request_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 8459c51..2aef5b5 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -47,7 +47,8 @@ void request_manager::add_request(server* server, json message)
         // if the new file is the same as the currently running one, cancel the old one
         if (currently_running_file_ == file && currently_running_file_ != "" && is_parsing_required)
         {
-            *cancel_ = true;
+            if (cancel_)
+                *cancel_ = true;
             // mark redundant requests as non valid
             for (auto& req : requests_)
             {
-- 
2.43.0


From 06f4402195d53680098888232d13e630cef2c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:21 +0000
Subject: [PATCH 12/58] fix: wait for the running request of a server that is
 being finished

With an empty queue, finish_server_requests returned immediately even when
the worker thread was still executing a request of the server, which the
caller destroys next.
---
 language_server/src/request_manager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 2aef5b5..0f216a1 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -134,10 +134,7 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
-        return;
-
-    if (cancel_)
+    if (cancel_ && (!requests_.empty() || currently_running_server_ == to_finish))
         *cancel_ = true;
 
     // if currently running request runs on the server we are about to finish, wait for that request to finish.
-- 
2.43.0


From 34fae308e5b5003241881ce3a23d2d3d11be1cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 13/58] fix: accept error responses without an id

JSON-RPC responses to requests that could not be parsed carry no id; the
missing member was dereferenced.
---
 language_server/src/lsp/lsp_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index a973eac..6edafc3 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -74,8 +74,10 @@ void server::message_received(const json& message)
         std::string warn_message;
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
-        else
+        else if (id_found != message.end())
             warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
+        else
+            warn_message = "Request with unspecified id returned with unspecified error.";
         LOG_WARNING(warn_message);
         return;
     }
-- 
2.43.0


From 5c9591840d491fbc7e19bd04775c37ff2b0e1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 14/58] fix: answer queries about files that have not been
 parsed

hover, definition, references, completion and semantic token requests for a
file that is known but was not parsed (e.g. the parsing was cancelled, or it
is a configuration file) dereferenced the missing analyzer.
---
 .../src/workspaces/processor_file_impl.cpp    | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..4752450 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -21,6 +21,22 @@
 
 namespace hlasm_plugin::parser_library::workspaces {
 
+namespace {
+// answers the queries on files that have not been parsed (yet)
+struct not_parsed_feature_provider final : lsp::feature_provider
+{
+    not_parsed_feature_provider() = default;
+
+    location definition(const std::string& document_uri, position pos) const override { return { pos, document_uri }; }
+    location_list references(const std::string&, position) const override { return {}; }
+    lsp::hover_result hover(const std::string&, position) const override { return {}; }
+    lsp::completion_list_s completion(const std::string&, position, char, completion_trigger_kind) const override
+    {
+        return {};
+    }
+};
+} // namespace
+
 processor_file_impl::processor_file_impl(std::string file_name, std::atomic<bool>* cancel)
     : file_impl(std::move(file_name))
     , cancel_(cancel)
@@ -97,14 +113,29 @@ const std::set<std::string>& processor_file_impl::dependencies() { return depend
 
 const semantics::lines_info& processor_file_impl::get_hl_info()
 {
+    static const semantics::lines_info empty_lines;
+    if (!analyzer_)
+        return empty_lines;
     return analyzer_->source_processor().semantic_tokens();
 }
 
-const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider() { return *analyzer_->context().lsp_ctx; }
+const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider()
+{
+    static const not_parsed_feature_provider not_parsed;
+    if (!analyzer_)
+        return not_parsed;
+    return *analyzer_->context().lsp_ctx;
+}
 
 const std::set<std::string>& processor_file_impl::files_to_close() { return files_to_close_; }
 
-const performance_metrics& processor_file_impl::get_metrics() { return analyzer_->get_metrics(); }
+const performance_metrics& processor_file_impl::get_metrics()
+{
+    static const performance_metrics empty_metrics {};
+    if (!analyzer_)
+        return empty_metrics;
+    return analyzer_->get_metrics();
+}
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
-- 
2.43.0


From 5d703f860df0f2d30f74fd07efb5a70640858686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 15/58] fix: lock the file table while it is iterated

The DAP thread changes the table (get_processor_file turns files into
processor files) while the LSP thread collects diagnostics.
---
 parser_library/src/workspaces/file_manager_impl.cpp | 2 ++
 parser_library/src/workspaces/file_manager_impl.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_manager_impl.cpp b/parser_library/src/workspaces/file_manager_impl.cpp
index 43d43cb..d82905c 100644
--- a/parser_library/src/workspaces/file_manager_impl.cpp
+++ b/parser_library/src/workspaces/file_manager_impl.cpp
@@ -24,6 +24,7 @@ namespace hlasm_plugin::parser_library::workspaces {
 
 void file_manager_impl::collect_diags() const
 {
+    std::lock_guard guard(files_mutex);
     for (auto& it : files_)
     {
         collect_diags_from_child(*it.second);
@@ -110,6 +111,7 @@ processor_file_ptr file_manager_impl::find_processor_file(const std::string& key
 
 std::vector<processor_file*> file_manager_impl::list_updated_files()
 {
+    std::lock_guard guard(files_mutex);
     std::vector<processor_file*> list;
     for (auto& item : files_)
     {
diff --git a/parser_library/src/workspaces/file_manager_impl.h b/parser_library/src/workspaces/file_manager_impl.h
index 77a5f29..a321fe9 100644
--- a/parser_library/src/workspaces/file_manager_impl.h
+++ b/parser_library/src/workspaces/file_manager_impl.h
@@ -66,7 +66,7 @@ protected:
     std::unordered_map<std::string, std::shared_ptr<file_impl>> files_;
 
 private:
-    std::mutex files_mutex;
+    mutable std::mutex files_mutex;
 
     std::atomic<bool>* cancel_;
 
-- 
2.43.0


From 246e48b835208704cdf279b3fd065a34db3fb717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:19 +0000
Subject: [PATCH 16/58] fix: do not throw when existence of a library member
 cannot be determined

---
 parser_library/src/workspaces/file_manager_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_manager_impl.cpp b/parser_library/src/workspaces/file_manager_impl.cpp
index d82905c..bedf12a 100644
--- a/parser_library/src/workspaces/file_manager_impl.cpp
+++ b/parser_library/src/workspaces/file_manager_impl.cpp
@@ -201,7 +201,8 @@ bool file_manager_impl::file_exists(const std::string& file_name)
 
 bool file_manager_impl::lib_file_exists(const std::string& lib_path, const std::string& file_name)
 {
-    return std::filesystem::exists(utils::path::join(lib_path, file_name));
+    std::error_code ec;
+    return std::filesystem::exists(utils::path::join(lib_path, file_name), ec);
 }
 
 } // namespace hlasm_plugin::parser_library::workspaces
-- 
2.43.0


From b8ca8fbf85fe107584869ec162f4a5bad614c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:13 +0000
Subject: [PATCH 17/58] fix: initialize the table of assembler instructions
 once

The table is static, but every analysis inserted into it, possibly in
different threads (language server and debugger) at the same time.
---
 parser_library/src/checking/instruction_checker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/checking/instruction_checker.cpp b/parser_library/src/checking/instruction_checker.cpp
index 489e991..b5206a0 100644
--- a/parser_library/src/checking/instruction_checker.cpp
+++ b/parser_library/src/checking/instruction_checker.cpp
@@ -17,7 +17,11 @@
 #include <map>
 
 namespace hlasm_plugin::parser_library::checking {
-assembler_checker::assembler_checker() { initialize_assembler_map(); }
+assembler_checker::assembler_checker()
+{
+    // the map is shared by analyses running in different threads
+    [[maybe_unused]] static const bool initialized = (initialize_assembler_map(), true);
+}
 
 bool assembler_checker::check(const std::string& instruction_name,
     const std::vector<const operand*>& operand_vector,
-- 
2.43.0


From a14710750c26c5d932214fd08c8047275b908237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:22 +0000
Subject: [PATCH 18/58] fix: use the reentrant conversion of local time

std::localtime returns a pointer to static data, which was overwritten when
the language server and the debugger analyzed files at the same time.
---
 parser_library/src/context/hlasm_context.cpp          |  4 +++-
 .../src/processing/instruction_sets/ca_processor.cpp  |  3 ++-
 utils/include/utils/platform.h                        |  4 ++++
 utils/src/platform.cpp                                | 11 +++++++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..1346e53 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -21,6 +21,7 @@
 #include "expressions/conditional_assembly/terms/ca_constant.h"
 #include "expressions/conditional_assembly/terms/ca_symbol_attribute.h"
 #include "instruction.h"
+#include "utils/platform.h"
 
 namespace hlasm_plugin::parser_library::context {
 
@@ -170,7 +171,8 @@ void hlasm_context::add_global_system_vars()
         auto time = std::make_shared<set_symbol<C_t>>(SYSTIME, true, true);
 
         auto tmp_now = std::time(0);
-        auto now = std::localtime(&tmp_now);
+        const auto now_tm = utils::platform::local_time(tmp_now);
+        const auto now = &now_tm;
 
         std::string datc_val;
         std::string date_val;
diff --git a/parser_library/src/processing/instruction_sets/ca_processor.cpp b/parser_library/src/processing/instruction_sets/ca_processor.cpp
index b1d6296..956c700 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/ca_processor.cpp
@@ -17,6 +17,7 @@
 #include "expressions/conditional_assembly/terms/ca_symbol.h"
 #include "semantics/operand_impls.h"
 #include "semantics/range_provider.h"
+#include "utils/platform.h"
 
 using namespace hlasm_plugin::parser_library;
 using namespace processing;
@@ -576,7 +577,7 @@ void ca_processor::process_AREAD(const semantics::complete_statement& stmt)
         const auto now = system_clock::now();
 
         const auto now_t = system_clock::to_time_t(now);
-        const auto tm = *std::localtime(&now_t);
+        const auto tm = utils::platform::local_time(now_t);
 
         const auto subsecond = now - std::chrono::floor<std::chrono::seconds>(now);
 
diff --git a/utils/include/utils/platform.h b/utils/include/utils/platform.h
index 64db5bb..0fbfaca 100644
--- a/utils/include/utils/platform.h
+++ b/utils/include/utils/platform.h
@@ -15,8 +15,12 @@
 #ifndef HLASMPLUGIN_UTILS_PLATFORM_H
 #define HLASMPLUGIN_UTILS_PLATFORM_H
 
+#include <ctime>
+
 namespace hlasm_plugin::utils::platform {
 bool is_windows();
+// thread safe variant of std::localtime
+std::tm local_time(std::time_t time);
 } // namespace hlasm_plugin::utils::platform
 
 #endif
diff --git a/utils/src/platform.cpp b/utils/src/platform.cpp
index f7ec2c9..061e1b7 100644
--- a/utils/src/platform.cpp
+++ b/utils/src/platform.cpp
@@ -36,4 +36,15 @@ bool is_windows()
 #endif
 }
 
+std::tm local_time(std::time_t time)
+{
+    std::tm result {};
+#ifdef _WIN32
+    localtime_s(&result, &time);
+#else
+    localtime_r(&time, &result);
+#endif
+    return result;
+}
+
 } // namespace hlasm_plugin::utils::platform
-- 
2.43.0


From 061cb7e6c3d94e72ee4bd1330025057b4c1ea193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:19 +0000
Subject: [PATCH 19/58] fix: make the server's shutdown and exit flags atomic

They are set by the thread that executes requests and tested by the thread
that reads them.
---
 language_server/src/server.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/language_server/src/server.h b/language_server/src/server.h
index b1d8146..ac6acdc 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_LANGUAGESERVER_SERVER
 #define HLASMPLUGIN_LANGUAGESERVER_SERVER
 
+#include <atomic>
 #include <unordered_set>
 
 #include "common_types.h"
@@ -60,8 +61,9 @@ protected:
     std::map<std::string, method> methods_;
     std::unordered_map<json, method> request_handlers_;
 
-    bool shutdown_request_received_ = false;
-    bool exit_notification_received_ = false;
+    // set by the thread that handles requests, tested by the thread that reads them
+    std::atomic<bool> shutdown_request_received_ = false;
+    std::atomic<bool> exit_notification_received_ = false;
 
     parser_library::workspace_manager& ws_mngr_;
 
-- 
2.43.0


From d737e3a05fa10d9ebf016460487ebb47481e0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:19 +0000
Subject: [PATCH 20/58] fix: read the return code after the LSP thread has
 finished

The return code was copied before the destructor of the main program waited
for the thread that sets it.
---
 language_server/src/main.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/language_server/src/main.cpp b/language_server/src/main.cpp
index ae98ac0..dcb3636 100644
--- a/language_server/src/main.cpp
+++ b/language_server/src/main.cpp
@@ -101,25 +101,28 @@ int main(int argc, char** argv)
     {
         int ret = 0;
 
-        main_program pgm(io_setup->get_response_stream(), ret);
-
-        for (auto& source = io_setup->get_request_stream();;)
         {
-            auto msg = source.read();
-
-            if (!msg.has_value())
-                break;
+            main_program pgm(io_setup->get_response_stream(), ret);
 
-            try
-            {
-                pgm.write(msg.value());
-            }
-            catch (const nlohmann::json::exception&)
+            for (auto& source = io_setup->get_request_stream();;)
             {
-                LOG_WARNING("Could not parse received JSON: " + msg.value());
+                auto msg = source.read();
+
+                if (!msg.has_value())
+                    break;
+
+                try
+                {
+                    pgm.write(msg.value());
+                }
+                catch (const nlohmann::json::exception&)
+                {
+                    LOG_WARNING("Could not parse received JSON: " + msg.value());
+                }
             }
         }
 
+        // the thread that sets the return code is finished at this point
         return ret;
     }
     catch (const std::exception& ex)
-- 
2.43.0


From f4099307cc1480fc60ad7862d0b265a496609345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:32 +0000
Subject: [PATCH 21/58] fix: replace overlong and out of range UTF-8 sequences

They were passed through as valid characters, but the input of the lexer
refuses them, which ended the analysis of the file by an exception.
---
 parser_library/src/workspaces/file_impl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..250e72e 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -307,6 +307,16 @@ std::string file_impl::replace_non_utf8_chars(const std::string& text)
             }
         }
 
+        // overlong encodings, surrogates and values above U+10FFFF are not valid either
+        if (OK && ch_len > 1)
+        {
+            const auto first = (unsigned char)text[i];
+            const auto second = (unsigned char)text[i + 1];
+            if (first < 0xC2 || (first == 0xE0 && second < 0xA0) || (first == 0xED && second >= 0xA0)
+                || (first == 0xF0 && second < 0x90) || (first == 0xF4 && second >= 0x90) || first > 0xF4)
+                OK = false;
+        }
+
         if (OK)
         {
             // copy the character to output
-- 
2.43.0


From b144e3d009b5746e3a4a151509e44fa684f4996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:32 +0000
Subject: [PATCH 22/58] fix: accept text with incomplete characters as input of
 the lexer

Conditional assembly substrings can split a multi-byte character. The
exception thrown by the input stream ended the analysis of the whole file.
---
 parser_library/src/lexing/input_source.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lexing/input_source.cpp b/parser_library/src/lexing/input_source.cpp
index f3a9741..7fbec46 100644
--- a/parser_library/src/lexing/input_source.cpp
+++ b/parser_library/src/lexing/input_source.cpp
@@ -16,11 +16,17 @@
 
 #include <exception>
 
+#include "workspaces/file_impl.h"
+
 namespace hlasm_plugin::parser_library::lexing {
 
+namespace {
+// text produced by conditional assembly (e.g. by a substring) may contain incomplete characters
+std::string valid_utf8(const std::string& text) { return workspaces::file_impl::replace_non_utf8_chars(text); }
+} // namespace
 
 input_source::input_source(const std::string& input)
-    : ANTLRInputStream(input)
+    : ANTLRInputStream(valid_utf8(input))
 {}
 
 void input_source::append(const UTF32String& str) { _data.append(str); }
@@ -28,10 +34,11 @@ void input_source::append(const UTF32String& str) { _data.append(str); }
 void input_source::append(const std::string& str)
 {
     p = _data.size();
-    _data.append(antlrcpp::utf8_to_utf32(str.data(), str.data() + str.size()));
+    const auto text = valid_utf8(str);
+    _data.append(antlrcpp::utf8_to_utf32(text.data(), text.data() + text.size()));
 }
 
-void input_source::reset(const std::string& str) { load(str); }
+void input_source::reset(const std::string& str) { load(valid_utf8(str)); }
 
 std::string input_source::getText(const antlr4::misc::Interval& interval)
 {
-- 
2.43.0


From 94bc5f76561b65ded1f5770c176c66c62597af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:30 +0000
Subject: [PATCH 23/58] fix: send messages that contain incomplete characters

Serialization of a value split by a substring (e.g. SETC variable shown by
the debugger) threw an exception and the message was lost.
---
 language_server/src/base_protocol_channel.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/language_server/src/base_protocol_channel.cpp b/language_server/src/base_protocol_channel.cpp
index 45f0c2b..613a2e1 100644
--- a/language_server/src/base_protocol_channel.cpp
+++ b/language_server/src/base_protocol_channel.cpp
@@ -50,9 +50,17 @@ void base_protocol_channel::write_message(const std::string& in)
     output.flush();
 }
 
-void base_protocol_channel::write(const nlohmann::json& message) { write_message(message.dump()); }
+namespace {
+// values of variables may contain incomplete characters, the message must be sent nevertheless
+std::string serialize(const nlohmann::json& message)
+{
+    return message.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+} // namespace
+
+void base_protocol_channel::write(const nlohmann::json& message) { write_message(serialize(message)); }
 
-void base_protocol_channel::write(nlohmann::json&& message) { write_message(message.dump()); }
+void base_protocol_channel::write(nlohmann::json&& message) { write_message(serialize(message)); }
 
 bool base_protocol_channel::read_message(std::string& out)
 {
-- 
2.43.0


From b727cf5e0a91e2d799c0d9fad8900d9d978366d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 24/58] fix: answer completion requests at the end of the text

The position after the last new line and positions behind the end of the text
led to an out of range exception and the request was not answered.
---
 parser_library/src/lsp/text_data_ref_t.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..726353a 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -29,7 +29,7 @@ std::string_view text_data_ref_t::get_line(size_t line) const
         return "";
     size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
     size_t line_len = line_end_i - line_indices[line];
-    return { &text->at(line_indices[line]), line_len };
+    return { text->data() + line_indices[line], line_len };
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
@@ -38,7 +38,7 @@ std::string_view text_data_ref_t::get_line_beginning(position pos) const
         return "";
     size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return { &text->at(line_indices[pos.line]), line_len };
+    return { text->data() + line_indices[pos.line], line_len };
 }
 
 
@@ -48,7 +48,7 @@ char text_data_ref_t::get_character_before(position pos) const
     if (pos.column == 0)
         return '\0';
     size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return text->at(index);
+    return index < text->size() ? (*text)[index] : '\0';
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
@@ -57,7 +57,7 @@ std::string_view text_data_ref_t::get_range_content(range r) const
     size_t end_i = workspaces::file_impl::index_from_position(*text, line_indices, r.end);
     if (start_i >= text->size())
         return empty_text;
-    return std::string_view(&text->at(start_i), end_i - start_i);
+    return std::string_view(text->data() + start_i, end_i - start_i);
 }
 
 size_t text_data_ref_t::get_number_of_lines() const { return line_indices.size(); }
-- 
2.43.0


From 6ac3a93aed2efd8275bdb8b372eecfe8346371d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:24 +0000
Subject: [PATCH 25/58] fix: do not throw when a library directory cannot be
 examined

---
 utils/src/native_path.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/src/native_path.cpp b/utils/src/native_path.cpp
index e0111f3..94c9153 100644
--- a/utils/src/native_path.cpp
+++ b/utils/src/native_path.cpp
@@ -40,16 +40,16 @@ bool equal(const std::filesystem::path& left, const std::filesystem::path& right
 list_directory_rc list_directory_regular_files(
     const std::filesystem::path& d, std::function<void(const std::filesystem::path&)> h)
 {
-    std::filesystem::directory_entry dir(d);
+    try
+    {
+        std::filesystem::directory_entry dir(d);
 
-    if (!dir.exists())
-        return list_directory_rc::not_exists;
+        if (!dir.exists())
+            return list_directory_rc::not_exists;
 
-    if (!dir.is_directory())
-        return list_directory_rc::not_a_directory;
+        if (!dir.is_directory())
+            return list_directory_rc::not_a_directory;
 
-    try
-    {
         std::filesystem::directory_iterator it(dir);
 
         for (auto& p : it)
-- 
2.43.0


From 8722ce236a9b762deccd83fe5a0cf67ae03ebf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:01 +0000
Subject: [PATCH 26/58] fix: answer completion requests after a cancelled
 analysis

---
 parser_library/src/lsp/lsp_context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index 01c2c57..d7f12d9 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -189,6 +189,9 @@ completion_list_s lsp_context::completion(const std::string& document_uri,
     auto file_it = files_.find(document_uri);
     if (file_it == files_.end())
         return completion_list_s();
+    // the analysis may have been cancelled before the open code was finished
+    if (!opencode_)
+        return completion_list_s();
     const text_data_ref_t& text = file_it->second->data;
 
     char last_char =
-- 
2.43.0


From d6664dc056b6d0ec03eff570136adcb2e141e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:46 +0000
Subject: [PATCH 27/58] fix: do not replace the analyzer of a file while it is
 running

---
 .../src/workspaces/processor_file_impl.cpp        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index 4752450..9c51f7e 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -58,11 +58,14 @@ bool processor_file_impl::is_once_only() const { return false; }
 
 parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 {
-    analyzer_ = std::make_unique<analyzer>(get_text(), get_file_name(), lib_provider, get_lsp_editing());
+    // the file may be its own dependency, the running analyzer must not be replaced
+    auto new_analyzer = std::make_unique<analyzer>(get_text(), get_file_name(), lib_provider, get_lsp_editing());
 
     auto old_dep = dependencies_;
 
-    auto res = parse_inner(*analyzer_);
+    auto res = parse_inner(*new_analyzer);
+
+    analyzer_ = std::move(new_analyzer);
 
     if (!cancel_ || !*cancel_)
     {
@@ -87,10 +90,14 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 parse_result processor_file_impl::parse_macro(
     parse_lib_provider& lib_provider, analyzing_context ctx, const library_data data)
 {
-    analyzer_ =
+    auto new_analyzer =
         std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
 
-    return parse_inner(*analyzer_);
+    auto res = parse_inner(*new_analyzer);
+
+    analyzer_ = std::move(new_analyzer);
+
+    return res;
 }
 
 parse_result processor_file_impl::parse_no_lsp_update(
-- 
2.43.0


From 355ff31f7c0a5db61053e53daaae90080bcbe7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:04 +0000
Subject: [PATCH 28/58] fix: replace processor groups and programs of a
 workspace together

---
 parser_library/src/workspaces/workspace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..efba0e5 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -427,7 +427,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -448,6 +447,8 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
+        // the programs refer to the groups, both are replaced together
+        proc_grps_.clear();
         exact_pgm_conf_.clear();
         regex_pgm_conf_.clear();
     }
-- 
2.43.0


From b1e25682267c3cedd78b2080037d212c320a482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:43 +0000
Subject: [PATCH 29/58] fix: opening a directory in place of a file does not
 throw length_error

---
 parser_library/src/workspaces/file_impl.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 250e72e..c2d4daf 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -45,15 +45,18 @@ void file_impl::load_text()
 {
     std::ifstream fin(file_name_, std::ios::in | std::ios::binary);
 
-    if (fin)
+    // the size is not asked for: it is unknown or meaningless when the name denotes no regular file (e.g. a directory)
+    bool opened = fin.is_open();
+    std::string text;
+    char buffer[4096];
+    while (opened && (fin.read(buffer, sizeof(buffer)) || fin.gcount() > 0))
+        text.append(buffer, (size_t)fin.gcount());
+
+    if (opened && !fin.bad())
     {
-        fin.seekg(0, std::ios::end);
-        text_.resize((size_t)fin.tellg());
-        fin.seekg(0, std::ios::beg);
-        fin.read(&text_[0], text_.size());
         fin.close();
 
-        text_ = replace_non_utf8_chars(text_);
+        text_ = replace_non_utf8_chars(text);
 
         up_to_date_ = true;
         bad_ = false;
-- 
2.43.0


From f027ba44fa9739c3fd085e77b0b17ded7b4188a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:28 +0000
Subject: [PATCH 30/58] fix: do not insert into the shared table of rounding
 modes when checking a constant

---
 .../data_definition/data_def_types_floating_point.cpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_floating_point.cpp b/parser_library/src/checking/data_definition/data_def_types_floating_point.cpp
index 676bb59..d00e4ef 100644
--- a/parser_library/src/checking/data_definition/data_def_types_floating_point.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_floating_point.cpp
@@ -40,7 +40,7 @@ data_def_type_E_D_L::data_def_type_E_D_L(char type,
         implicit_length)
 {}
 
-std::map<char, std::set<std::string>> allowed_round_modes = {
+const std::map<char, std::set<std::string>> allowed_round_modes = {
     { 'B', { "1", "4", "5", "6", "7" } },
     { 'H', { "1", "4", "5", "6", "7" } },
     { 'D', { "8", "9", "10", "11", "12", "13", "14", "15" } },
@@ -104,7 +104,9 @@ bool data_def_type_E_D_L::check(
                 ++i;
             }
 
-            if (allowed_round_modes[extension].find(round_mode_s) == allowed_round_modes[extension].end())
+            // the table is shared by concurrent analyses and must not be extended by a lookup
+            auto modes = allowed_round_modes.find(extension);
+            if (modes == allowed_round_modes.end() || modes->second.find(round_mode_s) == modes->second.end())
             {
                 add_diagnostic(diagnostic_op::error_D026(op.nominal_value.rng));
                 return false;
-- 
2.43.0


From 72b42e20f5a7245825613bdaa5653cc6e93d43a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:58 +0000
Subject: [PATCH 31/58] fix: formats and operands of BASSM, CLIY, MVIY, XC,
 STFLE, CLT, CLGT, EXRL, LHRL, LGHRL

---
 parser_library/src/context/instruction.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 2280b1d..28826da 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -315,7 +315,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "BAL", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 519);
     add_machine_instr(result, "BASR", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BAS", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 520);
-    add_machine_instr(result, "BASSM", mach_format::RX_a, { reg_4_U, reg_4_U }, 520);
+    add_machine_instr(result, "BASSM", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BSM", mach_format::RR, { reg_4_U, reg_4_U }, 522);
     add_machine_instr(result, "BIC", mach_format::RXY_b, { mask_4_U, dxb_20_4x4_S }, 523);
     add_machine_instr(result, "BCR", mach_format::RR, { mask_4_U, reg_4_U }, 524);
@@ -451,7 +451,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLGFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLI", mach_format::SI, { db_12_4_U, imm_8_U }, 636);
-    add_machine_instr(result, "CLIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 636);
+    add_machine_instr(result, "CLIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 636);
     add_machine_instr(result, "CLFHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLGHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLHHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
@@ -470,8 +470,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
-    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
-    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
+    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
+    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
     add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
     add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
@@ -536,11 +536,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
     add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
-    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_20_4_S }, 739);
+    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
     add_machine_instr(result, "XILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
-    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 740);
+    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 740);
     add_machine_instr(result, "EAR", mach_format::RRE, { reg_4_U, reg_4_U }, 741);
     add_machine_instr(result, "ECAG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 741);
     add_machine_instr(result, "ECTG", mach_format::SSF, { db_12_4_U, db_12_4_U, reg_4_U }, 744);
@@ -616,8 +616,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LGH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 760);
     add_machine_instr(result, "LHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
     add_machine_instr(result, "LGHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
-    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
-    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
+    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
+    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
     add_machine_instr(result, "LHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 761);
     add_machine_instr(result, "LOCHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
     add_machine_instr(result, "LOCGHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
@@ -682,7 +682,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "MVHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVGHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVI", mach_format::SI, { db_12_4_U, imm_8_U }, 773);
-    add_machine_instr(result, "MVIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 773);
+    add_machine_instr(result, "MVIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 773);
     add_machine_instr(result, "MVCIN", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 774);
     add_machine_instr(result, "MVCL", mach_format::RR, { reg_4_U, reg_4_U }, 774);
     add_machine_instr(result, "MVCLE", mach_format::RS_a, { reg_4_U, reg_4_U, db_12_4_U }, 778);
@@ -812,7 +812,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STCK", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKF", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKE", mach_format::S, { db_12_4_U }, 864);
-    add_machine_instr(result, "STFLE", mach_format::S, { db_20_4_S }, 866);
+    add_machine_instr(result, "STFLE", mach_format::S, { db_12_4_U }, 866);
     add_machine_instr(result, "STGSC", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 867);
     add_machine_instr(result, "STH", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 867);
     add_machine_instr(result, "STHY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 868);
-- 
2.43.0


From 2b60ffe40306c57d520b551ecfb28480102e9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:25 +0000
Subject: [PATCH 32/58] fix: extended mnemonics substitute the operands they
 stand for and may omit optional ones

---
 parser_library/src/context/instruction.cpp    | 36 +++++++++----------
 .../low_language_processor.cpp                | 14 ++++++--
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 28826da..446e122 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2029,7 +2029,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "SELRNL", { &i.at("SELR"), { { 3, 11 } } });
     add_mnemonic_code(result, "SELRNO", { &i.at("SELR"), { { 3, 14 } } });
     add_mnemonic_code(result, "SELRO", { &i.at("SELR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 0, 1 } } });
+    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 1, 0 } } });
     add_mnemonic_code(result, "VONE", { &i.at("VGBM"), { { 1, 65535 } } });
     add_mnemonic_code(result, "VGMB", { &i.at("VGM"), { { 3, 0 } } });
     add_mnemonic_code(result, "VGMH", { &i.at("VGM"), { { 3, 1 } } });
@@ -2324,12 +2324,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFENEZBS", { &i.at("VFENE"), { { 3, 0 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZHS", { &i.at("VFENE"), { { 3, 1 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZFS", { &i.at("VFENE"), { { 3, 2 }, { 4, 3 } } });
-    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 3, 0 } } });
-    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 3, 2 } } });
-    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 3, 1 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 3, 2 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 2, 2 } } });
+    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 2, 0 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 2, 1 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 2, 2 }, { 3, 1 } } });
     add_mnemonic_code(result, "VSTRCB", { &i.at("VSTRC"), { { 4, 0 } } });
     add_mnemonic_code(result, "VSTRCH", { &i.at("VSTRC"), { { 4, 1 } } });
     add_mnemonic_code(result, "VSTRCF", { &i.at("VSTRC"), { { 4, 2 } } });
@@ -2342,12 +2342,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
-    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 3, 4 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 3, 4 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 2, 4 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 2, 4 }, { 3, 0 } } });
     add_mnemonic_code(result, "VFCESB", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 0 } } });
     add_mnemonic_code(result, "VFCESBS", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 1 } } });
     add_mnemonic_code(result, "VFCEDB", { &i.at("VFCE"), { { 3, 3 }, { 4, 0 }, { 5, 0 } } });
@@ -2504,11 +2504,11 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFSQSB", { &i.at("VFSQ"), { { 2, 2 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQDB", { &i.at("VFSQ"), { { 2, 3 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQXB", { &i.at("VFSQ"), { { 2, 4 }, { 3, 8 } } });
-    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 0 } } });
-    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 0 } } });
-    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 2, 4 }, { 3, 8 } } });
+    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 0 } } });
+    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 3, 4 }, { 4, 8 } } });
     add_mnemonic_code(result, "VFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "VFTCIDB", { &i.at("VFTCI"), { { 3, 3 }, { 4, 0 } } });
     add_mnemonic_code(result, "WFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 8 } } });
diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index fb01e4f..c64bdd7 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -206,10 +206,15 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     // check size of mnemonic operands
     int diff = (int)curr_instr->operands.size() - (int)operands.size() - (int)mnemonic.replaced.size();
-    if (std::abs(diff) > curr_instr->no_optional)
+    // optional operands are the last ones, those substituted by the mnemonic cannot be omitted
+    int no_optional = curr_instr->no_optional;
+    for (const auto& [position, _] : mnemonic.replaced)
+        if (position + curr_instr->no_optional >= curr_instr->operands.size())
+            --no_optional;
+    if (diff < 0 || diff > no_optional)
     {
         auto curr_diag = diagnostic_op::error_optional_number_of_operands(instr_name,
-            curr_instr->no_optional,
+            no_optional,
             (int)curr_instr->operands.size() - (int)mnemonic.replaced.size(),
             stmt.stmt_range_ref());
 
@@ -223,7 +228,7 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     std::vector<checking::check_op_ptr> operand_vector;
     // create vector of empty operands
-    for (size_t i = 0; i < curr_instr->operands.size() + curr_instr->no_optional; i++)
+    for (size_t i = 0; i < curr_instr->operands.size(); i++)
         operand_vector.push_back(nullptr);
     // add substituted
     for (size_t i = 0; i < mnemonic.replaced.size(); i++)
@@ -251,6 +256,9 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
             }
         }
     }
+    // optional operands that were not specified
+    while (!operand_vector.empty() && operand_vector.back() == nullptr)
+        operand_vector.pop_back();
     return operand_vector;
 }
 
-- 
2.43.0


From c46759d3260daa65abf8dd7ac9e7c70682874c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:53 +0000
Subject: [PATCH 33/58] fix: unsigned immediate operands and optional masks of
 machine instructions

---
 parser_library/src/context/instruction.cpp | 58 +++++++++++-----------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 446e122..89bdd06 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -464,16 +464,16 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGRB", mach_format::RRS, { reg_4_U, reg_4_U, mask_4_U, db_12_4_U }, 638);
     add_machine_instr(result, "CLRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLGRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
     add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
-    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
-    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
+    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
+    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
     add_machine_instr(result, "CLMY", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
     add_machine_instr(result, "CLMH", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
@@ -497,8 +497,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CVDY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 715);
     add_machine_instr(result, "CVDG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 715);
     add_machine_instr(result, "CU24", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 715);
-    add_machine_instr(result, "CUUTF", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 718);
-    add_machine_instr(result, "CU21", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 718);
+    add_machine_instr(result, "CUUTF", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 718);
+    add_machine_instr(result, "CU21", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 718);
     add_machine_instr(result, "CU42", mach_format::RRE, { reg_4_U, reg_4_U }, 722);
     add_machine_instr(result, "CU41", mach_format::RRE, { reg_4_U, reg_4_U }, 725);
     add_machine_instr(result, "CUTFU", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 728);
@@ -534,8 +534,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "X", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 738);
     add_machine_instr(result, "XY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
-    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
-    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
+    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_U }, 739);
+    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 739);
     add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
@@ -675,7 +675,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LRVH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRV", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRVG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
-    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_S }, 772);
+    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_U }, 772);
     add_machine_instr(result, "MVC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 773);
     add_machine_instr(result, "MVCRL", mach_format::SSE, { db_12_4_U, db_12_4_U }, 788);
     add_machine_instr(result, "MVHHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
@@ -759,20 +759,20 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "PFDRL", mach_format::RIL_c, { mask_4_U, reg_imm_32_S }, 843);
     add_machine_instr(result, "RLL", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
     add_machine_instr(result, "RLLG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
-    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 848);
-    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 849);
-    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 845);
+    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 847);
+    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 847);
+    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 848);
+    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 849);
+    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 845);
+    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 858);
+    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 858);
+    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
     add_machine_instr(result, "SRST", mach_format::RRE, { reg_4_U, reg_4_U }, 850);
     add_machine_instr(result, "SRSTU", mach_format::RRE, { reg_4_U, reg_4_U }, 852);
     add_machine_instr(result, "SAR", mach_format::RRE, { reg_4_U, reg_4_U }, 854);
@@ -1015,8 +1015,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STPX", mach_format::S, { db_12_4_U }, 1121);
     add_machine_instr(result, "STRAG", mach_format::SSE, { db_12_4_U, db_12_4_U }, 1121);
     add_machine_instr(result, "STSI", mach_format::S, { db_12_4_U }, 1122);
-    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
-    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
+    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
+    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
     add_machine_instr(result, "STURA", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "STURG", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "TAR", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
@@ -1664,8 +1664,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "VCP", mach_format::VRR_h, { vec_reg_4_U, vec_reg_4_U, mask_4_U }, 1644);
     add_machine_instr(result, "VCVB", mach_format::VRR_i, { reg_4_U, vec_reg_4_U, mask_4_U }, 1645);
     add_machine_instr(result, "VCVBG", mach_format::VRR_i, { reg_4_U, vec_reg_4_U, mask_4_U }, 1645);
-    add_machine_instr(result, "VCVD", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_S, mask_4_U }, 1646);
-    add_machine_instr(result, "VCVDG", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_S, mask_4_U }, 1646);
+    add_machine_instr(result, "VCVD", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_U, mask_4_U }, 1646);
+    add_machine_instr(result, "VCVDG", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_U, mask_4_U }, 1646);
     add_machine_instr(
         result, "VDP", mach_format::VRI_f, { vec_reg_4_U, vec_reg_4_U, vec_reg_4_U, imm_8_U, mask_4_U }, 1648);
     add_machine_instr(
-- 
2.43.0


From 9658939aa9087d35f994cf12e882ea2a19d88b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:05 +0000
Subject: [PATCH 34/58] fix: names and values of VFEEHS, VUPLHH, VCEFB, VCLFEB,
 VCELFB, WCDGB

---
 parser_library/src/context/instruction.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 89bdd06..617a044 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2091,7 +2091,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VUPHH", { &i.at("VUPH"), { { 2, 1 } } });
     add_mnemonic_code(result, "VUPHF", { &i.at("VUPH"), { { 2, 2 } } });
     add_mnemonic_code(result, "VUPLHB", { &i.at("VUPLH"), { { 2, 0 } } });
-    add_mnemonic_code(result, "VUPLHG", { &i.at("VUPLH"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VUPLHH", { &i.at("VUPLH"), { { 2, 1 } } });
     add_mnemonic_code(result, "VUPLHF", { &i.at("VUPLH"), { { 2, 2 } } });
     add_mnemonic_code(result, "VUPLB", { &i.at("VUPL"), { { 2, 0 } } });
     add_mnemonic_code(result, "VUPLHW", { &i.at("VUPL"), { { 2, 1 } } });
@@ -2270,7 +2270,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VESRLH", { &i.at("VESRL"), { { 3, 1 } } });
     add_mnemonic_code(result, "VESRLF", { &i.at("VESRL"), { { 3, 2 } } });
     add_mnemonic_code(result, "VESRLG", { &i.at("VESRL"), { { 3, 3 } } });
-    add_mnemonic_code(result, "VCEFB", { &i.at("VCFPS"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VCEFB", { &i.at("VCFPS"), { { 2, 2 } } });
     add_mnemonic_code(result, "VSB", { &i.at("VS"), { { 3, 0 } } });
     add_mnemonic_code(result, "VSH", { &i.at("VS"), { { 3, 1 } } });
     add_mnemonic_code(result, "VSF", { &i.at("VS"), { { 3, 2 } } });
@@ -2304,7 +2304,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VLBRG", { &i.at("VLBR"), { { 2, 3 } } });
     add_mnemonic_code(result, "VLBRQ", { &i.at("VLBR"), { { 2, 4 } } });
     add_mnemonic_code(result, "VFEEBS", { &i.at("VFEE"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VFEEGS", { &i.at("VFEE"), { { 3, 1 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VFEEHS", { &i.at("VFEE"), { { 3, 1 }, { 4, 1 } } });
     add_mnemonic_code(result, "VFEEFS", { &i.at("VFEE"), { { 3, 2 }, { 4, 1 } } });
     add_mnemonic_code(result, "VFEEZB", { &i.at("VFEE"), { { 3, 0 }, { 4, 2 } } });
     add_mnemonic_code(result, "VFEEZH", { &i.at("VFEE"), { { 3, 1 }, { 4, 2 } } });
@@ -2338,7 +2338,6 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VLBRREPG", { &i.at("VLBRREP"), { { 2, 3 } } });
     add_mnemonic_code(result, "VFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "VFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WCDGB", { &i.at("VCFPS"), { { 2, 2 } } });
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
@@ -2417,7 +2416,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VCDLGB", { &i.at("VCFPL"), { { 2, 3 } } });
     add_mnemonic_code(result, "VCGDB", { &i.at("VCSFP"), { { 2, 3 } } });
     add_mnemonic_code(result, "VCLGDB", { &i.at("VCLGD"), { { 2, 3 } } });
-    add_mnemonic_code(result, "VCLFEB", { &i.at("VCLFP"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VCLFEB", { &i.at("VCLFP"), { { 2, 2 } } });
     add_mnemonic_code(result, "VFDSB", { &i.at("VFD"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "WFDSB", { &i.at("VFD"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "VFDDB", { &i.at("VFD"), { { 3, 3 }, { 4, 0 } } });
@@ -2472,7 +2471,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFPSOSB", { &i.at("VFPSO"), { { 2, 2 }, { 3, 0 } } });
     add_mnemonic_code(result, "WFPSOSB", { &i.at("VFPSO"), { { 2, 2 }, { 3, 8 } } });
     add_mnemonic_code(result, "VFLCSB", { &i.at("VFPSO"), { { 2, 2 }, { 3, 0 }, { 4, 0 } } });
-    add_mnemonic_code(result, "VCELFB", { &i.at("VCFPL"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VCELFB", { &i.at("VCFPL"), { { 2, 2 } } });
     add_mnemonic_code(result, "VLLEBRZH", { &i.at("VLLEBRZ"), { { 2, 1 } } });
     add_mnemonic_code(result, "VLLEBRZF", { &i.at("VLLEBRZ"), { { 2, 2 } } });
     add_mnemonic_code(result, "VLLEBRZG", { &i.at("VLLEBRZ"), { { 2, 3 } } });
-- 
2.43.0


From b47afe773b5e523b892a53b79d1f889e2ed9c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:43 +0000
Subject: [PATCH 35/58] fix: VACQ and VACCCQ substitute the mask of VAC and
 VACCC

---
 parser_library/src/context/instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 617a044..de859bf 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2109,8 +2109,8 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VACCF", { &i.at("VACC"), { { 3, 2 } } });
     add_mnemonic_code(result, "VACCG", { &i.at("VACC"), { { 3, 3 } } });
     add_mnemonic_code(result, "VACCQ", { &i.at("VACC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 3, 4 } } });
+    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 4, 4 } } });
+    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 4, 4 } } });
     add_mnemonic_code(result, "VAVGB", { &i.at("VAVG"), { { 3, 0 } } });
     add_mnemonic_code(result, "VAVGH", { &i.at("VAVG"), { { 3, 1 } } });
     add_mnemonic_code(result, "VAVGF", { &i.at("VAVG"), { { 3, 2 } } });
-- 
2.43.0


From a49f2782b0d984da38a386631073dae3929d2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:01 +0000
Subject: [PATCH 36/58] fix: RMODE, ACTR and keyword diagnostics have codes of
 their own

---
 parser_library/src/diagnostic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/diagnostic.cpp b/parser_library/src/diagnostic.cpp
index 55c5c4f..ddd83d7 100644
--- a/parser_library/src/diagnostic.cpp
+++ b/parser_library/src/diagnostic.cpp
@@ -214,7 +214,7 @@ diagnostic_op diagnostic_op::error_A106_TITLE_string_chars(const range& range)
 diagnostic_op diagnostic_op::error_A107_RMODE_op_format(const range& range)
 {
     return diagnostic_op(diagnostic_severity::error,
-        "A108",
+        "A107",
         "Error at RMODE instruction: operand value must be one of the following: 24, 31, 64, ANY",
         range);
 }
@@ -1707,7 +1707,7 @@ diagnostic_op diagnostic_op::error_E055(const range& range)
 
 diagnostic_op diagnostic_op::error_E056(const range& range)
 {
-    return diagnostic_op(diagnostic_severity::error, "E055", "ACTR counter exceeded", range);
+    return diagnostic_op(diagnostic_severity::error, "E056", "ACTR counter exceeded", range);
 }
 
 diagnostic_op diagnostic_op::error_E057(const range& range)
@@ -1832,7 +1832,7 @@ diagnostic_op diagnostic_op::warning_W013(const range& range)
 diagnostic_op diagnostic_op::warning_W014(const range& range)
 {
     return diagnostic_op(diagnostic_severity::warning,
-        "W013",
+        "W014",
         "Undefined keyword parameter, default to positional including keyword",
         range);
 }
-- 
2.43.0


From 909a658d810d39dc73d2ed5d5b5562c7beccf013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:02 +0000
Subject: [PATCH 37/58] fix: diagnostics of expressions in data definitions are
 collected

---
 .../src/expressions/data_definition.cpp       | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index e36a4c2..b093675 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -253,7 +253,26 @@ void data_definition::assign_location_counter(context::address loctr_value)
     }
 }
 
-void data_definition::collect_diags() const {}
+void data_definition::collect_diags() const
+{
+    for (const auto* expr : { dupl_factor.get(), program_type.get(), length.get(), scale.get(), exponent.get() })
+        if (expr)
+            collect_diags_from_child(*expr);
+
+    if (nominal_value && nominal_value->access_exprs())
+    {
+        for (const auto& entry : nominal_value->access_exprs()->exprs)
+        {
+            if (std::holds_alternative<mach_expr_ptr>(entry))
+                collect_diags_from_child(*std::get<mach_expr_ptr>(entry));
+            else
+            {
+                collect_diags_from_child(*std::get<address_nominal>(entry).displacement);
+                collect_diags_from_child(*std::get<address_nominal>(entry).base);
+            }
+        }
+    }
+}
 
 checking::data_def_field<int32_t> set_data_def_field(
     const expressions::mach_expression* e, expressions::mach_evaluate_info info)
-- 
2.43.0


From 17dd6e4f7b86d5db789958c70c3da82ee7736c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:33 +0000
Subject: [PATCH 38/58] fix: symbols in strings, substrings and subscripts are
 found by references and definition

---
 .../occurence_collector.cpp                   | 36 +++++++++++++++----
 .../statement_analyzers/occurence_collector.h |  2 ++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a4d97e1..df988f5 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -114,12 +114,15 @@ void occurence_collector::visit(const semantics::macro_operand_string&) {}
 
 void occurence_collector::get_occurence(const semantics::variable_symbol& var)
 {
-    if (collector_kind == lsp::occurence_kind::VAR)
+    if (var.created)
+        get_variables(var.access_created()->created_name);
+    else if (collector_kind == lsp::occurence_kind::VAR)
+        occurences.emplace_back(lsp::occurence_kind::VAR, var.access_basic()->name, var.symbol_range);
+
+    for (const auto& e : var.subscript)
     {
-        if (var.created)
-            get_occurence(var.access_created()->created_name);
-        else
-            occurences.emplace_back(lsp::occurence_kind::VAR, var.access_basic()->name, var.symbol_range);
+        if (e)
+            e->apply(*this);
     }
 }
 
@@ -151,8 +154,7 @@ void occurence_collector::get_occurence(const semantics::concat_chain& chain)
                 }
                 break;
             case semantics::concat_type::VAR:
-                if (collector_kind == lsp::occurence_kind::VAR)
-                    get_occurence(*point->access_var()->access_var()->symbol);
+                get_occurence(*point->access_var()->access_var()->symbol);
                 break;
             case semantics::concat_type::SUB:
                 for (const auto& ch : point->access_sub()->list)
@@ -164,6 +166,21 @@ void occurence_collector::get_occurence(const semantics::concat_chain& chain)
     }
 }
 
+// collects only from variable symbols of the chain, its text is no symbol
+void occurence_collector::get_variables(const semantics::concat_chain& chain)
+{
+    for (const auto& point : chain)
+    {
+        if (point->type == semantics::concat_type::VAR)
+            get_occurence(*point->access_var()->symbol);
+        else if (point->type == semantics::concat_type::SUB)
+        {
+            for (const auto& ch : point->access_sub()->list)
+                get_variables(ch);
+        }
+    }
+}
+
 void occurence_collector::visit(const expressions::mach_expr_constant&) {}
 
 void occurence_collector::visit(const expressions::mach_expr_data_attr& expr)
@@ -202,6 +219,11 @@ void occurence_collector::visit(const expressions::ca_string& expr)
 {
     if (expr.duplication_factor)
         expr.duplication_factor->apply(*this);
+    get_variables(expr.value);
+    if (expr.substring.start)
+        expr.substring.start->apply(*this);
+    if (expr.substring.count)
+        expr.substring.count->apply(*this);
 }
 
 void occurence_collector::visit(const expressions::ca_symbol& expr) { get_occurence(expr.symbol, expr.expr_range); }
diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.h b/parser_library/src/processing/statement_analyzers/occurence_collector.h
index 98a5988..0b2b84a 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.h
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.h
@@ -57,6 +57,8 @@ public:
     void get_occurence(const semantics::concat_chain& chain);
 
 private:
+    void get_variables(const semantics::concat_chain& chain);
+
     void visit(const expressions::mach_expr_constant& expr) override;
     void visit(const expressions::mach_expr_data_attr& expr) override;
     void visit(const expressions::mach_expr_symbol& expr) override;
-- 
2.43.0


From 795e8ef9bc2893ddafafc02d8ca7416b815bff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 39/58] fix: attributes in subscripts inside character
 expressions are looked up ahead

---
 .../src/expressions/conditional_assembly/terms/ca_string.cpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
index 705d98b..dc110ae 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
@@ -35,9 +35,9 @@ ca_string::ca_string(
 
 undef_sym_set ca_string::get_undefined_attributed_symbols(const evaluation_context& eval_ctx) const
 {
-    undef_sym_set tmp;
+    undef_sym_set tmp = semantics::concatenation_point::get_undefined_attributed_symbols(value, eval_ctx);
     if (duplication_factor)
-        tmp = duplication_factor->get_undefined_attributed_symbols(eval_ctx);
+        tmp.merge(duplication_factor->get_undefined_attributed_symbols(eval_ctx));
     if (substring.start)
         tmp.merge(substring.start->get_undefined_attributed_symbols(eval_ctx));
     if (substring.count)
-- 
2.43.0


From 554788e3569330ef43fd4d6bf13ed1be15a1388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 40/58] fix: COPY with an operand that is no expression does
 not dereference null

---
 .../src/processing/instruction_sets/asm_processor.cpp         | 4 ++--
 .../src/processing/statement_analyzers/lsp_analyzer.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..96727e7 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -535,8 +535,8 @@ void asm_processor::process_copy(const semantics::complete_statement& stmt,
     workspaces::parse_lib_provider& lib_provider,
     diagnosable_ctx* diagnoser)
 {
-    auto& expr = stmt.operands_ref().value.front()->access_asm()->access_expr()->expression;
-    auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(expr.get());
+    auto expr_op = stmt.operands_ref().value.front()->access_asm()->access_expr();
+    auto sym_expr = expr_op ? dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get()) : nullptr;
 
     if (!sym_expr)
     {
diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index 7ae4f19..5ea7e2e 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -260,7 +260,8 @@ void lsp_analyzer::collect_copy_operands(const context::hlasm_statement& stateme
         return;
 
     if (res_stmt->opcode_ref().value == hlasm_ctx_.ids().add("COPY") && res_stmt->operands_ref().value.size() == 1
-        && res_stmt->operands_ref().value.front()->access_asm())
+        && res_stmt->operands_ref().value.front()->access_asm()
+        && res_stmt->operands_ref().value.front()->access_asm()->access_expr())
     {
         auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(
             res_stmt->operands_ref().value.front()->access_asm()->access_expr()->expression.get());
-- 
2.43.0


From 59f4c9a6af85e86e6ab7cbe6deedf0b4d92e5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 41/58] fix: a symbol defined twice by EXTRN is reported, not
 left to an exception

---
 .../src/processing/instruction_sets/asm_processor.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 96727e7..9315333 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -330,7 +330,9 @@ void asm_processor::process_EXTRN(rebuilt_statement stmt)
             if (auto expr = op->access_expr())
             {
                 auto sym = dynamic_cast<const expressions::mach_expr_symbol*>(expr->expression.get());
-                if (sym)
+                if (sym && hlasm_ctx.ord_ctx.symbol_defined(sym->value))
+                    add_diagnostic(diagnostic_op::error_E031("symbol", sym->get_range()));
+                else if (sym)
                     create_symbol(sym->get_range(),
                         sym->value,
                         hlasm_ctx.ord_ctx.align(context::no_align),
-- 
2.43.0


From 409fe348f71a63ce4246b0c12e81d7c21141b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 42/58] fix: attributes of a label that a DC or DS does not
 define are not made dependent on it

---
 .../src/processing/instruction_sets/asm_processor.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 9315333..fefdbe8 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -205,6 +205,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     // process label
     auto label = find_label_symbol(stmt);
+    bool label_created = false;
 
     if (label != context::id_storage::empty_id && stmt.operands_ref().value.size()
         && stmt.operands_ref().value.front()->type != semantics::operand_type::EMPTY)
@@ -237,6 +238,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
                 std::move(adr),
                 context::symbol_attributes(
                     context::symbol_origin::DAT, type, len, scale, value.get_integer_attribute()));
+            label_created = true;
         }
         else
             add_diagnostic(diagnostic_op::error_E031("symbol", stmt.label_ref().field_range));
@@ -264,7 +266,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         bool cycle_ok = true;
 
-        if (label != context::id_storage::empty_id)
+        if (label_created)
         {
             if (adder.source_stmt->impl()->operands_ref().value.empty())
                 return;
-- 
2.43.0


From 84a69eca9ea4b81884486dbb0d5f63b14aa28295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 43/58] fix: ORG with an expression that turns out absolute is
 reported, not left to an exception

---
 .../src/processing/instruction_sets/asm_processor.cpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index fefdbe8..8e41e6e 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -433,8 +433,15 @@ void asm_processor::process_ORG(rebuilt_statement stmt)
 
     if (reloc_expr)
     {
+        auto expr_val = !undefined_absolute_part ? reloc_expr->expression->evaluate(hlasm_ctx.ord_ctx)
+                                                 : context::symbol_value();
+        if (!undefined_absolute_part && expr_val.value_kind() != context::symbol_value_kind::RELOC)
+        {
+            add_diagnostic(diagnostic_op::error_A245_ORG_expression(stmt.stmt_range_ref()));
+            return;
+        }
         auto reloc_val = !undefined_absolute_part
-            ? reloc_expr->expression->evaluate(hlasm_ctx.ord_ctx).get_reloc()
+            ? expr_val.get_reloc()
             : *reloc_expr->expression->get_dependencies(hlasm_ctx.ord_ctx).unresolved_address;
 
         if (!check_address_for_ORG(
-- 
2.43.0


From a850df43814c021f75bfe716700a94bf109c6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:00 +0000
Subject: [PATCH 44/58] fix: postponed ORG switches to its own location
 counter, not to another unnamed one

---
 .../ordinary_assembly/ordinary_assembly_context.cpp  | 12 ++++++++++++
 .../ordinary_assembly/ordinary_assembly_context.h    |  2 ++
 .../instruction_sets/low_language_processor.cpp      |  8 ++++----
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..60a56f3 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -130,6 +130,18 @@ void ordinary_assembly_context::set_location_counter(id_index name, location sym
     }
 }
 
+void ordinary_assembly_context::set_location_counter(const location_counter& counter)
+{
+    for (const auto& sect : sections_)
+    {
+        if (sect.get() == &counter.owner)
+        {
+            curr_section_ = sect.get();
+            curr_section_->set_location_counter(counter.name);
+        }
+    }
+}
+
 void ordinary_assembly_context::set_location_counter_value(const address& addr,
     size_t boundary,
     int offset,
diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.h b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.h
index d45d683..18474cb 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.h
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.h
@@ -73,6 +73,8 @@ public:
 
     // sets current location counter of current section
     void set_location_counter(id_index name, location symbol_location);
+    // makes an existing location counter current (names of unnamed sections are not unique)
+    void set_location_counter(const location_counter& counter);
 
     // sets value of the current location counter
     void set_location_counter_value(const address& addr,
diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index c64bdd7..a4507b1 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -156,16 +156,16 @@ bool low_language_processor::check_address_for_ORG(range err_range,
 void low_language_processor::resolve_unknown_loctr_dependency(
     context::space_ptr sp, const context::address& addr, range err_range)
 {
-    auto tmp_loctr = hlasm_ctx.ord_ctx.current_section()->current_location_counter();
+    const auto& tmp_loctr = hlasm_ctx.ord_ctx.current_section()->current_location_counter();
 
-    hlasm_ctx.ord_ctx.set_location_counter(sp->owner.name, location());
+    hlasm_ctx.ord_ctx.set_location_counter(sp->owner);
     hlasm_ctx.ord_ctx.current_section()->current_location_counter().switch_to_unresolved_value(sp);
 
     if (!check_address_for_ORG(
             err_range, addr, hlasm_ctx.ord_ctx.align(context::no_align), sp->previous_boundary, sp->previous_offset))
     {
         (void)hlasm_ctx.ord_ctx.current_section()->current_location_counter().restore_from_unresolved_value(sp);
-        hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr.name, location());
+        hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr);
         return;
     }
 
@@ -173,7 +173,7 @@ void low_language_processor::resolve_unknown_loctr_dependency(
         addr, sp->previous_boundary, sp->previous_offset, nullptr, nullptr);
 
     auto ret = hlasm_ctx.ord_ctx.current_section()->current_location_counter().restore_from_unresolved_value(sp);
-    hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr.name, location());
+    hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr);
 
     context::space::resolve(sp, std::move(ret));
 
-- 
2.43.0


From 7d3603b45d09383af75c3645ae4e586906687657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 45/58] fix: a postponed ORG whose expression turns out not to
 be an address is reported, not left to an exception

---
 .../src/context/ordinary_assembly/symbol_dependency_tables.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 2de05fc..cfb3a4b 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -95,7 +95,8 @@ struct resolve_dependant_visitor
 
         if (sp->kind == space_kind::LOCTR_UNKNOWN)
             resolver->resolve_unknown_loctr_dependency(sp,
-                val.get_reloc(),
+                val.value_kind() == symbol_value_kind::RELOC ? val.get_reloc()
+                                                             : address(address::base { nullptr }, 0, {}),
                 dependency_source_stmts_.find(sp)->second.stmt_ref->get()->impl()->stmt_range_ref());
         else
             space::resolve(sp, length);
-- 
2.43.0


From 5f3307cf4e426fddd98aa83efbf8ea80750a9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:40 +0000
Subject: [PATCH 46/58] fix: shift operators of conditional assembly ignore the
 shifted value

Shifting by zero returned the number of places, and an arithmetic shift
of a non-negative value by 32 or more places gave -1.
---
 .../expressions/conditional_assembly/ca_operator_binary.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..e4d1e7f 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0;
                 break;
             default:
                 result = 0;
-- 
2.43.0


From 87a2ea67a76d38879a9f2949c624f93a0847e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:17 +0000
Subject: [PATCH 47/58] fix: comparison and negation of arithmetic values of
 conditional assembly overflow

Values far apart compared the wrong way round, and the negative of the
smallest value was not reported.
---
 .../expressions/conditional_assembly/ca_operator_binary.cpp  | 3 ++-
 .../expressions/conditional_assembly/ca_operator_unary.cpp   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index e4d1e7f..68c4c89 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -233,7 +233,8 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            // the difference of two values need not fit
+            return (lhs.access_a() > rhs.access_a()) - (lhs.access_a() < rhs.access_a());
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
index 92c7a09..885e698 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 
+#include "ca_operator_binary.h"
 #include "ebcdic_encoding.h"
 #include "expressions/evaluation_context.h"
 #include "terms/ca_function.h"
@@ -112,9 +113,9 @@ ca_minus_operator::ca_minus_operator(ca_expr_ptr expr, range expr_range)
     : ca_unary_operator(std::move(expr), context::SET_t_enum::A_TYPE, std::move(expr_range))
 {}
 
-context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context&) const
+context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context& eval_ctx) const
 {
-    return -operand.access_a();
+    return ca_sub::operation(0, operand, expr_range, eval_ctx);
 }
 
 ca_par_operator::ca_par_operator(ca_expr_ptr expr, range expr_range)
-- 
2.43.0


From a02ab00bc21d8263ecdaa8ed2fc47c7bee530910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:46 +0000
Subject: [PATCH 48/58] fix: substitution of the smallest arithmetic value
 wraps

The magnitude of -2147483648 does not fit 32 bits; the sign was
substituted with it.
---
 parser_library/src/semantics/concatenation_term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index 719d454..b590836 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -43,7 +43,7 @@ std::string var_sym_conc::evaluate(context::SET_t varsym_value)
     switch (varsym_value.type)
     {
         case context::SET_t_enum::A_TYPE:
-            return std::to_string(std::abs(varsym_value.access_a()));
+            return std::to_string(std::abs((long long)varsym_value.access_a()));
         case context::SET_t_enum::B_TYPE:
             return varsym_value.access_b() ? "1" : "0";
         case context::SET_t_enum::C_TYPE:
-- 
2.43.0


From 7dde7e6ac60bf986f820dc650421c7e91c69737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:22 +0000
Subject: [PATCH 49/58] fix: do not build CA expressions over a variable symbol
 the parser did not produce

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 50d81c0..553d7c3 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -77,7 +77,8 @@ term returns [ca_expr_ptr ca_expr]
 	| var_symbol
 	{
 		auto r = provider.get_range($var_symbol.ctx);
-		$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
+		if ($var_symbol.vs)
+			$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
 	}
 	| ca_string
 	{ 
@@ -238,7 +239,8 @@ data_attribute_value returns [std::variant<context::id_index, semantics::vs_ptr>
 	: literal
 	| var_symbol
 	{
-		$value = std::move($var_symbol.vs);
+		if ($var_symbol.vs)
+			$value = std::move($var_symbol.vs);
 	}
 	| id
 	{
-- 
2.43.0


From afe7bd71a0cc2b2d057e4996e6736a9d17492269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:22 +0000
Subject: [PATCH 50/58] fix: clear concatenation chains before they are handed
 over (ANTLR drops finally of left-recursive rules)

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4  |  3 +--
 .../src/parsing/grammar/macro_operand_rules.g4       | 12 +++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 553d7c3..285a5c5 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -317,6 +317,7 @@ ca_string_b returns [ca_expr_ptr ca_expr]
 	: ca_dupl_factor (apostrophe|attr) string_ch_v_c (apostrophe|attr) substring
 	{
 		auto r = provider.get_range($ca_dupl_factor.ctx->getStart(), $substring.ctx->getStop());
+		concatenation_point::clear_concat_chain($string_ch_v_c.chain);
 		$ca_expr = std::make_unique<expressions::ca_string>(std::move($string_ch_v_c.chain), std::move($ca_dupl_factor.value), std::move($substring.value), r);
 	};
 	finally
@@ -342,5 +343,3 @@ string_ch_v returns [concat_point_ptr point]
 string_ch_v_c returns [concat_chain chain]
 	:
 	| cl=string_ch_v_c string_ch_v		{$cl.chain.push_back(std::move($string_ch_v.point)); $chain = std::move($cl.chain);};
-	finally
-	{concatenation_point::clear_concat_chain($chain);}
diff --git a/parser_library/src/parsing/grammar/macro_operand_rules.g4 b/parser_library/src/parsing/grammar/macro_operand_rules.g4
index 0145964..683171a 100644
--- a/parser_library/src/parsing/grammar/macro_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/macro_operand_rules.g4
@@ -26,7 +26,10 @@ mac_op_o returns [operand_ptr op]
 	: mac_entry?
 	{
 		if($mac_entry.ctx)
+		{
+			concatenation_point::clear_concat_chain($mac_entry.chain);
 			$op = std::make_unique<macro_operand_chain>(std::move($mac_entry.chain),provider.get_range($mac_entry.ctx));
+		}
 		else
 			$op = std::make_unique<semantics::empty_operand>(provider.original_range);
 	};
@@ -119,8 +122,6 @@ mac_entry returns [concat_chain chain]
 		$chain = std::move($tmp.chain);
 		$chain.insert($chain.end(), std::make_move_iterator($mac_ch.chain.begin()), std::make_move_iterator($mac_ch.chain.end()));
 	};
-	finally
-	{concatenation_point::clear_concat_chain($chain);}
 
 mac_sublist_b_c returns [concat_chain chain]
 	: mac_ch_c										{$chain = std::move($mac_ch_c.chain);}
@@ -135,4 +136,9 @@ mac_sublist_b returns [std::vector<concat_chain> chains]
 	};
 
 mac_sublist returns [concat_point_ptr point]
-	: lpar mac_sublist_b rpar						{ $point = std::make_unique<sublist_conc>(std::move($mac_sublist_b.chains)); };
\ No newline at end of file
+	: lpar mac_sublist_b rpar
+	{
+		for (auto& chain : $mac_sublist_b.chains)
+			concatenation_point::clear_concat_chain(chain);
+		$point = std::make_unique<sublist_conc>(std::move($mac_sublist_b.chains));
+	};
\ No newline at end of file
-- 
2.43.0


From ebbec1b49e640551ff4ecd3506717a60304f550f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:22 +0000
Subject: [PATCH 51/58] fix: an attribute reference to a literal refers to no
 symbol instead of a missing identifier

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 285a5c5..5170ed7 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -235,7 +235,7 @@ data_attribute returns [context::data_attr_kind attribute, std::variant<context:
 		$value_range = provider.get_range( $data_attribute_value.ctx);
 	};
 
-data_attribute_value returns [std::variant<context::id_index, semantics::vs_ptr> value]
+data_attribute_value returns [std::variant<context::id_index, semantics::vs_ptr> value = id_storage::empty_id]
 	: literal
 	| var_symbol
 	{
-- 
2.43.0


From 70b5bf89e539202ec4bdec4efd93b118188f87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:52 +0000
Subject: [PATCH 52/58] fix: a suboperand cut short by a syntax error is empty,
 not missing

---
 parser_library/src/parsing/grammar/assembler_operand_rules.g4 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_library/src/parsing/grammar/assembler_operand_rules.g4 b/parser_library/src/parsing/grammar/assembler_operand_rules.g4
index 9a4d2cd..c59aef7 100644
--- a/parser_library/src/parsing/grammar/assembler_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/assembler_operand_rules.g4
@@ -89,6 +89,8 @@ asm_op_inner returns [std::unique_ptr<complex_assembler_operand::component_value
 			provider.get_range($id.ctx->getStart(),$rpar.ctx->getStop()));
 		collector.add_hl_symbol(token_info(provider.get_range($id.ctx),hl_scopes::operand));
 	};
+	finally
+	{if (!$op) $op = std::make_unique<complex_assembler_operand::string_value_t>("", provider.get_range(_localctx));}
 
 asm_op_comma_c returns [std::vector<std::unique_ptr<complex_assembler_operand::component_value_t>> asm_ops]
 	: asm_op_inner														{$asm_ops.push_back(std::move($asm_op_inner.op));}
-- 
2.43.0


From 982dc09c196f33b828fe21e6b207e78a735b2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:53 +0000
Subject: [PATCH 53/58] fix: closing a document that is not open any more used
 a missing file

---
 parser_library/src/workspaces/workspace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index efba0e5..22c1264 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -251,7 +251,8 @@ void workspace::did_close_file(const std::string& file_uri)
     {
         auto file = file_manager_.find_processor_file(*fname);
         // filter the dependencies that should not be closed
-        filter_and_close_dependencies_(file->dependencies(), file);
+        if (file)
+            filter_and_close_dependencies_(file->dependencies(), file);
         // remove it from dependants
         dependants_.erase(fname);
     }
-- 
2.43.0


From f1c2c9a1ab3e1890bcb14ea916c1ad8e7930e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 54/58] fix: attribute lookahead looked for a symbol without
 attributes forever

---
 .../processing/statement_processors/lookahead_processor.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/statement_processors/lookahead_processor.cpp b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
index f1950dc..1605638 100644
--- a/parser_library/src/processing/statement_processors/lookahead_processor.cpp
+++ b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
@@ -320,6 +320,10 @@ void lookahead_processor::find_ord(const resolved_statement& statement)
             break;
     }
 
+    // the statement does not provide the attributes, the symbol must not be looked for again
+    if (!hlasm_ctx.ord_ctx.get_symbol_reference(id))
+        register_attr_ref(id, context::symbol_attributes(context::symbol_origin::UNKNOWN));
+
     finished_flag_ = action == lookahead_action::ORD && to_find_.empty();
 }
 
-- 
2.43.0


From 4a2947b31695e8237de28b20a134993e1a6ebaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 55/58] fix: prototype of a macro already processed as another
 instruction crashed

---
 .../statement_processors/macrodef_processor.cpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 407e4b9..da1584d 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -251,7 +251,15 @@ void macrodef_processor::process_prototype_operand(
             continue;
         }
 
-        auto tmp = op->access_mac()->access_chain();
+        // a statement of a macro or a copy member may have already been processed in a different format
+        auto mac_op = op->access_mac();
+        if (!mac_op)
+        {
+            add_diagnostic(diagnostic_op::error_E043(op->operand_range));
+            continue;
+        }
+
+        auto tmp = mac_op->access_chain();
         assert(tmp);
 
         auto& tmp_chain = tmp->chain;
-- 
2.43.0


From 7426398ab021bdb52f56866449ce9ed28476cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 56/58] fix: position remembered at a just entered copy member
 preceded its first statement

---
 parser_library/src/context/processing_context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/processing_context.cpp b/parser_library/src/context/processing_context.cpp
index e19b1bc..1fd9168 100644
--- a/parser_library/src/context/processing_context.cpp
+++ b/parser_library/src/context/processing_context.cpp
@@ -31,7 +31,8 @@ source_snapshot source_context::create_snapshot() const
     for (auto& member : copy_stack)
         copy_frames.emplace_back(member.name, member.current_statement);
 
-    if (!copy_frames.empty())
+    // no statement of a just entered member has been read yet
+    if (!copy_frames.empty() && copy_frames.back().statement_offset >= 0)
         --copy_frames.back().statement_offset;
 
     return source_snapshot { current_instruction, begin_index, end_index, end_line, std::move(copy_frames) };
-- 
2.43.0


From 2ff10fcf678795619db02578bd678a87c4c0bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 57/58] fix: index of lines was wrong after a change next to a
 line separator

---
 parser_library/src/workspaces/file_impl.cpp | 47 ++-------------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index c2d4daf..751a988 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -130,54 +130,15 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // a line separator may be created or split by the change, also at its borders
+    lines_ind_.clear();
+    lines_ind_.push_back(0);
+    find_newlines(text_, lines_ind_);
 
     ++version_;
 }
-- 
2.43.0


From c1d8d9a11751743bf658e5ee67442c30d60d9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:42 +0000
Subject: [PATCH 58/58] fix: text of a closed document was what had been in the
 editor, saved or not

---
 parser_library/src/workspaces/file_impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 751a988..c988cfc 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -152,7 +152,12 @@ void file_impl::did_change(std::string new_text)
     ++version_;
 }
 
-void file_impl::did_close() { editing_ = false; }
+void file_impl::did_close()
+{
+    editing_ = false;
+    // what was not saved is lost, the text has to be loaded again
+    up_to_date_ = false;
+}
 
 const std::string& file_impl::get_text_ref() { return text_; }
 
-- 
2.43.0

