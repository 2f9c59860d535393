From c2d4d4f3680bbc9e6113a3fb6e7f60b6c2c7f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 01/69] fix: nclangsrv ends at the end of its input and accepts
 any LSP header part

At end of input the server spun forever, so a client that died left an orphan
behind. Header fields other than Content-Length (e.g. Content-Type), in any
position, made it lose the stream, and a negative length allocated 4 GB.
---
 nclangsrv/nclangsrv.cpp | 120 ++++++++++++++++++++++------------------
 1 file changed, 66 insertions(+), 54 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..7190d3e 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -1,9 +1,9 @@
 #include "stdafx.h"
-#include <chrono>
+#include <algorithm>
+#include <charconv>
 #include <fstream>
 #include <iostream>
 #include <string>
-#include <thread>
 
 #include <boost/program_options.hpp>
 #include <filesystem>
@@ -36,6 +36,65 @@ namespace po = boost::program_options;
 
 #define LOGGER (*logger)()
 
+namespace {
+
+// Reads one header part (up to and including the empty line that ends it). Header fields other than Content-Length
+// and anything which is not a header field are skipped. Returns false at the end of the input.
+bool readHeader(std::istream& in, size_t& length)
+{
+    const std::string field("Content-Length:");
+
+    bool        found{};
+    std::string str;
+    while (std::getline(in, str))
+    {
+        if (not str.empty() and str.back() == '\r')
+            str.pop_back();
+
+        if (str.empty())
+        {
+            if (found)
+                return true;
+            continue;
+        }
+
+        const auto pos = str.find(field);
+        if (pos == std::string::npos)
+            continue;
+
+        const auto beg = str.find_first_not_of(" \t", pos + field.size());
+        if (beg == std::string::npos)
+            continue;
+        const auto end   = str.find_last_not_of(" \t") + 1;
+        const auto value = str.data() + beg;
+        if (const auto [ptr, ec] = std::from_chars(value, str.data() + end, length);
+            ec == std::errc() and ptr == str.data() + end)
+            found = length > 0;
+    }
+
+    return false;
+}
+
+std::string readBody(std::istream& in, size_t length)
+{
+    constexpr size_t CHUNK_SIZE = 65536;
+
+    std::string body;
+    while (body.size() < length)
+    {
+        const auto offset = body.size();
+        body.resize(offset + std::min(CHUNK_SIZE, length - offset));
+        in.read(&body[offset], body.size() - offset);
+        body.resize(offset + in.gcount());
+        if (not in)
+            break;
+    }
+
+    return body;
+}
+
+} // namespace
+
 int main(int argc, char* argv[])
 {
     parser::AxesRotatingOption axes_rotating_option;
@@ -102,62 +161,15 @@ int main(int argc, char* argv[])
     if (logger)
         LOGGER << __func__ << ": Current path is " << fs::current_path() << std::endl;
 
-    while (true)
+    size_t length{};
+    while (readHeader(std::cin, length))
     {
-        using namespace std::chrono_literals;
-        std::this_thread::sleep_for(1ms);
-
-        char        c;
-        std::string str;
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
-                continue;
-            str += c;
-            if (str == "Content-Length: ")
-                break;
-        }
-
-        if (str.empty())
-            continue;
-
-        str.clear();
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
-        }
-
-        uint32_t length = std::atoi(str.c_str());
         if (logger)
-            LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
-                   << "], " << length << std::endl;
-        if (length == 0)
-        {
-            continue;
-        }
+            LOGGER << __func__ << ": Content-Length: " << length << std::endl;
 
-        std::string buffer;
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
+        const std::string buffer = readBody(std::cin, length);
+        if (buffer.size() < length)
             break;
-        }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
 
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
-- 
2.43.0


From 8afb41cfc975f2a35d35fe1dc9d6d160a3dbb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 02/69] fix: nclangsrv answers malformed, unknown and
 incomplete messages instead of crashing

Text which is not JSON, messages that are not objects, missing members, members
of a wrong type and deep nesting crashed the server; requests with a string id
were answered with another id and unknown requests were never answered.
---
 nclangsrv/JsonMessageHandler.cpp | 183 +++++++++++++++++++++++++------
 nclangsrv/JsonMessageHandler.h   |  13 ++-
 2 files changed, 160 insertions(+), 36 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..89085f5 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -31,6 +31,59 @@ namespace nclangsrv {
 
 namespace {
 
+// Error codes defined by JSON-RPC
+constexpr int PARSE_ERROR      = -32700;
+constexpr int INVALID_REQUEST  = -32600;
+constexpr int METHOD_NOT_FOUND = -32601;
+constexpr int INVALID_PARAMS   = -32602;
+
+// The parser and the writer are recursive
+bool nestingTooDeep(const std::string& json)
+{
+    constexpr size_t MAX_NESTING = 512;
+
+    size_t nesting{};
+    bool   string{};
+    for (size_t x = 0; x < json.size(); ++x)
+    {
+        const char c = json[x];
+        if (string)
+        {
+            if (c == '\\')
+                ++x;
+            else if (c == '"')
+                string = false;
+        }
+        else if (c == '"')
+            string = true;
+        else if (c == '[' or c == '{')
+        {
+            if (++nesting > MAX_NESTING)
+                return true;
+        }
+        else if ((c == ']' or c == '}') and nesting > 0)
+            --nesting;
+    }
+
+    return false;
+}
+
+bool isRequest(const std::string& method)
+{
+    return method == "initialize" or method == "textDocument/completion" or method == "completionItem/resolve" or
+           method == "textDocument/hover" or method == "textDocument/codeLens" or method == "codeLens/resolve" or
+           method == "shutdown";
+}
+
+// Identifier of the response: the one of the request, null when it cannot be determined
+rapidjson::Value makeId(const rapidjson::Document& request, rapidjson::Document::AllocatorType& a)
+{
+    rapidjson::Value id;
+    if (request.IsObject() and request.HasMember("id") and (request["id"].IsNumber() or request["id"].IsString()))
+        id.CopyFrom(request["id"], a);
+    return id;
+}
+
 rapidjson::Value makeRange(int line, size_t from, size_t to, rapidjson::Document::AllocatorType& a)
 {
     rapidjson::Value start(rapidjson::kObjectType);
@@ -202,28 +255,33 @@ JsonMessageHandler::JsonMessageHandler(Logger* logger, const std::string& rootPa
 
 bool JsonMessageHandler::parse(const std::string& json)
 {
-    int32_t     id{};
-    std::string method;
-
     rapidjson::Document d;
 
-    rapidjson::ParseResult parse_result = d.Parse(json.c_str());
+    if (nestingTooDeep(json))
+    {
+        sendError(d, PARSE_ERROR, "Too deep nesting");
+        return false;
+    }
+
+    rapidjson::ParseResult parse_result = d.Parse(json.c_str(), json.size());
     if (not parse_result)
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__
                    << ": JSON parse error: " << rapidjson::GetParseErrorFunc(parse_result.Code()) << "("
                    << parse_result.Offset() << ")" << std::endl;
+        sendError(d, PARSE_ERROR, "Parse error");
+        return false;
     }
 
-    if (d.HasMember("id"))
+    if (not d.IsObject() or (d.HasMember("method") and not d["method"].IsString()))
     {
-        if (d["id"].IsInt())
-            id = d["id"].GetInt();
-        else if (d["id"].IsString())
-            id = atoi(d["id"].GetString());
+        sendError(d, INVALID_REQUEST, "Invalid request");
+        return false;
     }
 
+    std::string method;
+
     if (d.HasMember("method"))
     {
         method = std::string{d["method"].GetString(), d["method"].GetStringLength()};
@@ -232,14 +290,40 @@ bool JsonMessageHandler::parse(const std::string& json)
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": no method!" << std::endl;
+        return false;
     }
 
     if (mLogger)
-        LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
+        LOGGER << "JsonMessageHandler::" << __func__ << ": method:" << method << std::endl;
+
+    if (isRequest(method) and not d.HasMember("id"))
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": no id!" << std::endl;
+        return false;
+    }
+
+    try
+    {
+        dispatch(method, d);
+    }
+    catch (const std::exception& e)
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": ERR: " << e.what() << std::endl;
+        if (d.HasMember("id"))
+            sendError(d, INVALID_PARAMS, e.what());
+        return false;
+    }
+
+    return true;
+}
 
+void JsonMessageHandler::dispatch(const std::string& method, const rapidjson::Document& request)
+{
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(request);
     }
     else if (method == "initialized")
     {
@@ -247,39 +331,39 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "workspace/didChangeConfiguration")
     {
-        workspace_didChangeConfiguration(d);
+        workspace_didChangeConfiguration(request);
     }
     else if (method == "textDocument/didOpen")
     {
-        textDocument_didOpen(d);
+        textDocument_didOpen(request);
     }
     else if (method == "textDocument/didChange")
     {
-        textDocument_didChange(d);
+        textDocument_didChange(request);
     }
     else if (method == "textDocument/didClose")
     {
-        textDocument_didClose(d);
+        textDocument_didClose(request);
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(request);
     }
     else if (method == "completionItem/resolve")
     {
-        completionItem_resolve(d);
+        completionItem_resolve(request);
     }
     else if (method == "textDocument/hover")
     {
-        textDocument_hover(d);
+        textDocument_hover(request);
     }
     else if (method == "textDocument/codeLens")
     {
-        textDocument_codeLens(d);
+        textDocument_codeLens(request);
     }
     else if (method == "codeLens/resolve")
     {
-        codeLens_resolve(d);
+        codeLens_resolve(request);
     }
     else if (method == "$/cancelRequest")
     {
@@ -287,7 +371,7 @@ bool JsonMessageHandler::parse(const std::string& json)
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(request);
     }
     else if (method == "exit")
     {
@@ -297,19 +381,19 @@ bool JsonMessageHandler::parse(const std::string& json)
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
+        if (request.HasMember("id"))
+            sendError(request, METHOD_NOT_FOUND, "Method not found: " + method);
     }
-
-    return true;
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -444,7 +528,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -454,7 +538,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -498,7 +582,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -642,7 +726,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -819,7 +903,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -907,7 +991,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -966,14 +1050,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", makeId(request, a), a);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
@@ -1001,6 +1085,39 @@ void JsonMessageHandler::shutdown(int32_t id)
     mExit = true;
 }
 
+void JsonMessageHandler::sendError(const rapidjson::Document& request, int code, const std::string& message)
+{
+    rapidjson::Document d;
+    d.SetObject();
+    rapidjson::Document::AllocatorType& a = d.GetAllocator();
+
+    d.AddMember("jsonrpc", "2.0", a);
+    d.AddMember("id", makeId(request, a), a);
+
+    rapidjson::Value error(rapidjson::kObjectType);
+    error.AddMember("code", code, a);
+    rapidjson::Value msg;
+    msg.SetString(message.c_str(), static_cast<rapidjson::SizeType>(message.size()), a);
+    error.AddMember("message", msg, a);
+    d.AddMember("error", error, a);
+
+    rapidjson::StringBuffer                    stringBuffer;
+    rapidjson::Writer<rapidjson::StringBuffer> writer(stringBuffer);
+    d.Accept(writer);
+
+    std::string response{stringBuffer.GetString()};
+
+    if (mLogger)
+    {
+        LOGGER << "JsonMessageHandler::" << __func__ << ": Content-Length: " << response.size() << std::endl
+               << "[" << response << "]" << std::endl;
+        mLogger->flush();
+    }
+
+    std::cout << "Content-Length: " << response.size() << MSG_ENDL << MSG_ENDL << response;
+    std::cout.flush();
+}
+
 void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri, const std::string& content)
 {
     FileContext       fileContext{};
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..41082f0 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -2,9 +2,14 @@
 
 #include <fstream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
+// Messages come from outside: a member which is missing or has a wrong type is an invalid request, not a program error
+#ifndef RAPIDJSON_ASSERT
+#define RAPIDJSON_ASSERT(x) ((x) ? (void)0 : throw std::invalid_argument("Invalid message: " #x))
+#endif
 #include <rapidjson/document.h>
 
 #include <GeneralParserDefines.h>
@@ -31,19 +36,21 @@ public:
     }
 
 private:
-    void initialize(int32_t id);
+    void dispatch(const std::string& method, const rapidjson::Document& request);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
+    void sendError(const rapidjson::Document& request, int code, const std::string& message);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From ca464b4b6f39525d461a6f3db69a024a27291dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:44 +0000
Subject: [PATCH 03/69] fix: completionItem/resolve does not need a preceding
 completion request

Resolving before the first completion dereferenced descriptions that had not
been read, and macro descriptions were missing from a completion requested
before the first document was opened. A broken user macro descriptions file
left an empty reader behind, which was never read again.
---
 nclangsrv/JsonMessageHandler.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 89085f5..ad536d7 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -520,8 +520,9 @@ void JsonMessageHandler::fetch_macrosDesc()
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
                                       fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
-        mMacrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
-        mMacrosDesc->read();
+        auto reader = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
+        reader->read();
+        mMacrosDesc = std::move(reader);
 
         for (const auto& v : mMacrosDesc->getMacros())
             mSuggestions.push_back("#" + v);
@@ -532,6 +533,14 @@ void JsonMessageHandler::textDocument_completion(const rapidjson::Document& requ
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
+    try
+    {
+        fetch_macrosDesc();
+    }
+    catch (const json_parser_exception&)
+    {
+        // Already reported by the diagnostics
+    }
 
     rapidjson::Document d;
     d.SetObject();
@@ -577,6 +586,17 @@ void JsonMessageHandler::textDocument_completion(const rapidjson::Document& requ
 
 void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& request)
 {
+    fetch_gCodesDesc();
+    fetch_mCodesDesc();
+    try
+    {
+        fetch_macrosDesc();
+    }
+    catch (const json_parser_exception&)
+    {
+        // Already reported by the diagnostics
+    }
+
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
@@ -638,7 +658,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                         desc  = it->second.second;
                     }
                 }
-                else if (label[0] == '#')
+                else if (label[0] == '#' && mMacrosDesc)
                 {
                     std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
                 }
@@ -828,7 +848,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
-                    auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
+                    MacrosDescReader::MacroDescPair desc;
+                    if (mMacrosDesc)
+                        desc = mMacrosDesc->getDesc(code);
+                    const auto& [macroTitle, macroDesc] = desc;
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
                         exist    = true;
-- 
2.43.0


From fc21573c3c47fdc09c34372089848e0803d155f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 04/69] fix: nclangsrv survives unreadable configuration files

A missing file threw out of the message handler; after a file which could not
be parsed the next documents were verified against an empty grammar; completion
and hover requested before the first document ignored the driver of .ncsettings
and half read settings stayed in use.
---
 nclangsrv/JsonMessageHandler.cpp | 23 ++++++++++++++++++++---
 nclangsrv/JsonMessageHandler.h   |  1 +
 nclangsrv/NCParser.cpp           | 21 ++++++++++++---------
 nclangsrv/NCSettingsReader.cpp   |  4 ++++
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index ad536d7..d02e255 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -477,12 +477,20 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     mFileContexts.erase(textDocument["uri"].GetString());
 }
 
+void JsonMessageHandler::readNcSettings()
+{
+    if (!mNcSettingsReader.getNcSettingsPath().empty() && !mNcSettingsReader.read())
+        throw std::runtime_error("Couldn't read .ncsetting file");
+}
+
 void JsonMessageHandler::fetch_gCodesDesc()
 {
+    readNcSettings();
+
     if (!mGCodes.get())
     {
         auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
+        auto descPath   = fs::weakly_canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
                                       fs::path("desc") / fs::path("gcode_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
@@ -496,10 +504,12 @@ void JsonMessageHandler::fetch_gCodesDesc()
 
 void JsonMessageHandler::fetch_mCodesDesc()
 {
+    readNcSettings();
+
     if (!mMCodes.get())
     {
         auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
+        auto descPath   = fs::weakly_canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
                                       fs::path("desc") / fs::path("mcode_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
@@ -513,10 +523,12 @@ void JsonMessageHandler::fetch_mCodesDesc()
 
 void JsonMessageHandler::fetch_macrosDesc()
 {
+    readNcSettings();
+
     if (!mMacrosDesc.get())
     {
         auto fsRootPath = fs::path(mRootPath);
-        auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
+        auto descPath   = fs::weakly_canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
                                       fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
@@ -1166,6 +1178,11 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
     {
         macroDescErr = e.what();
     }
+    catch (const std::exception& e)
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": ERR: " << e.what() << std::endl;
+    }
 
     rapidjson::Document d;
     d.SetObject();
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 41082f0..d02e59d 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -53,6 +53,7 @@ private:
     void sendError(const rapidjson::Document& request, int code, const std::string& message);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
+    void readNcSettings();
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..08dc279 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -271,13 +271,14 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string grammarPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json")).string();
+            fs::weakly_canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json")).string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": grammarPath: " << grammarPath << std::endl;
-        mWordGrammarReader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
+        auto reader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
 
-        if (!mWordGrammarReader->read())
+        if (!reader->read())
             return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
+        mWordGrammarReader = std::move(reader);
     }
 
     if (!mGCodeGroupsReader.get())
@@ -286,14 +287,15 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string gCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json"))
+            fs::weakly_canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json"))
                 .string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": gCodeGroupsPath: " << gCodeGroupsPath << std::endl;
-        mGCodeGroupsReader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
+        auto reader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
 
-        if (!mGCodeGroupsReader->read())
+        if (!reader->read())
             return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
+        mGCodeGroupsReader = std::move(reader);
     }
 
     if (!mMCodeGroupsReader.get())
@@ -302,14 +304,15 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string mCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json"))
+            fs::weakly_canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json"))
                 .string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": mCodeGroupsPath: " << mCodeGroupsPath << std::endl;
-        mMCodeGroupsReader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
+        auto reader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
 
-        if (!mMCodeGroupsReader->read())
+        if (!reader->read())
             return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
+        mMCodeGroupsReader = std::move(reader);
     }
 
     auto word_grammar = mWordGrammarReader->getWordGrammar();
diff --git a/nclangsrv/NCSettingsReader.cpp b/nclangsrv/NCSettingsReader.cpp
index 2d4afeb..bd854f9 100644
--- a/nclangsrv/NCSettingsReader.cpp
+++ b/nclangsrv/NCSettingsReader.cpp
@@ -65,6 +65,8 @@ void NCSettingsReader::setDefaults()
                                          false,
                                          false,
                                          false};
+
+    mZeroPoint = ZeroPoint{};
 }
 
 bool NCSettingsReader::read()
@@ -169,6 +171,7 @@ bool NCSettingsReader::read()
             LOGGER << "NCSettingsReader::" << __func__ << ": ERR: " << e.what() << std::endl;
             mLogger->flush();
         }
+        setDefaults();
         return false;
     }
     catch (const std::exception& e)
@@ -178,6 +181,7 @@ bool NCSettingsReader::read()
             LOGGER << "NCSettingsReader::" << __func__ << ": ERR: " << e.what() << std::endl;
             mLogger->flush();
         }
+        setDefaults();
         return false;
     }
 
-- 
2.43.0


From c95d6023f27cf12947abf3adb061787b11bcdabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:50 +0000
Subject: [PATCH 05/69] fix: hover survives any macro number and any length of
 a number

The macro number was converted without a range check, the error path wrote to a
logger which is not there by default, very long numbers exhausted the stack in
std::regex and an unknown macro after G or M gave a result without contents.
---
 nclangsrv/JsonMessageHandler.cpp |  8 ++++----
 nclangsrv/MacrosDescReader.cpp   | 28 ++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index d02e255..98136d6 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -764,7 +764,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     {
         size_t     from{};
         size_t     to{};
-        std::regex r("[GgMm]\\d+\\.?\\d?");
+        std::regex r("[GgMm]\\d{1,9}\\.?\\d?");
 
         std::string contents = searchPattern(r, strLine, character, from, to);
 
@@ -800,7 +800,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             size_t from{};
             size_t to{};
 
-            std::regex  rGM("[GgMm]#\\d+");
+            std::regex  rGM("[GgMm]#\\d{1,9}");
             std::string contents = searchPattern(rGM, strLine, character, from, to);
             if (!contents.empty() && contents.size() > 2)
             {
@@ -837,12 +837,12 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    result.SetNull();
                 }
             }
             else
             {
-                std::regex rm("#\\d+");
+                std::regex rm("#\\d{1,9}");
 
                 std::string contents = searchPattern(rm, strLine, character, from, to);
 
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..17a93f8 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -102,14 +102,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,14 +140,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From 455968fafc841c2eb4404d580428ab5d28780ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 06/69] fix: the ends of a macro range have the description of
 the range

#1031 of 'Range: #1000-#1031' and #10001 of '#2001-#2200 - #10001-#10999' were
left without a description.
---
 nclangsrv/MacrosDescReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 17a93f8..a923f2a 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -158,7 +158,7 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 572f6100c209565d1dbb78223a2e4bf4730daad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 07/69] fix: a diagnostic is put on its line also when its text
 contains "line 1"

The text of the block is part of the message, so the comment of
'X (line 12)' was rewritten and the diagnostic landed on the first line;
a message starting with the digit 1 lost that digit.
---
 nclangsrv/NCParser.cpp | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 08dc279..2a4586a 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -395,7 +395,7 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
+    const std::string        line_str("1:");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -441,26 +441,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message.compare(0, line_str.size(), line_str) == 0)
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 7e9f6fc82f1af064bf9a2dce497ada19a314f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:28 +0000
Subject: [PATCH 08/69] fix: code lens text longer than the buffer is cut

A long number in the text made the length returned by snprintf, more than the
size of the buffer, be read from it.
---
 nclangsrv/NCParser.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 2a4586a..6857478 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -161,42 +161,41 @@ std::string formatPathTimeResult(const PathResult& pr, const TimeResult& tr, dou
 
     if (pr.total >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total path = %.2f", pr.total);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total path = %.2f", pr.total);
+        result.append(buffer);
     }
     if (tr.total >= tolerance)
     {
         auto formattedTime = formatTime(tr.total);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total time = %s", formattedTime.c_str());
+        result.append(buffer);
     }
     if (pr.tool_total >= tolerance && pr.total - pr.tool_total >= tolerance)
     {
-        auto written =
-            std::snprintf(buffer, BUFFER_SIZE, " | T%s total path = %.2f", pr.tool_id.c_str(), pr.tool_total);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | T%s total path = %.2f", pr.tool_id.c_str(), pr.tool_total);
+        result.append(buffer);
     }
     if (pr.fast_motion >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total rapid path = %.2f", total_fast_motion_path);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total rapid path = %.2f", total_fast_motion_path);
+        result.append(buffer);
     }
     if (tr.fast_motion >= tolerance)
     {
         auto formattedTime = formatTime(total_fast_motion_time);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total rapid time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total rapid time = %s", formattedTime.c_str());
+        result.append(buffer);
     }
     if (pr.work_motion >= tolerance)
     {
-        auto written = std::snprintf(buffer, BUFFER_SIZE, " | Total cut path = %.2f", total_work_motion_path);
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total cut path = %.2f", total_work_motion_path);
+        result.append(buffer);
     }
     if (tr.work_motion >= tolerance)
     {
         auto formattedTime = formatTime(total_work_motion_time);
-        auto written       = std::snprintf(buffer, BUFFER_SIZE, " | Total cut time = %s", formattedTime.c_str());
-        result.append(buffer, written);
+        std::snprintf(buffer, BUFFER_SIZE, " | Total cut time = %s", formattedTime.c_str());
+        result.append(buffer);
     }
 
     return result;
-- 
2.43.0


From e061d213dbc296e841f29f7865dec78b67c06ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:12 +0000
Subject: [PATCH 09/69] fix: bracket and macro status of a block does not leak
 into the next blocks

After the first '#n = ...' block an optional block number out of [1,9] or an
operator after a word was accepted in all blocks that follow; brackets which
were not closed had the same effect.
---
 parser/fanuc/AllAttributesParser.cpp      | 1 +
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..2afcc8f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -238,6 +238,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
             evaluated_code_part     = true;
+            all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..db03614 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = status{};
     }
 
 private:
-- 
2.43.0


From f07dd9ab663b9d108453b3640f6d395596fa4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 10/69] fix: a block whose macro values are out of the word
 ranges is reported

The verdict of the evaluated block was lost, so T#1 with #1=12345 passed. With
the verdict in place the evaluated text has to be right: values are rounded to
the increment of the address, X-#1 with a negative #1 is not X--5, '=' of
assignable addresses is kept and '#' without a number is an error, it
dereferenced an empty optional.
---
 parser/fanuc/AllAttributesParser.cpp        |  4 +-
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 48 +++++++++++++++++----
 parser/fanuc/MacroEvaluatedCodeVerifier.h   |  3 +-
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 2afcc8f..c4ebb15 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -230,7 +230,8 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         std::vector<AttributeVariant> value2;
 
         auto evaluated_code =
-            MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language);
+            MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language,
+                                         active_word_grammar);
         if (!evaluated_code.empty())
         {
             std::string_view evaluated_code_view = evaluated_code;
@@ -286,6 +287,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         if (!message.empty())
             msg << " <- " << message;
         message = msg.str();
+        return false;
     }
     catch (const code_groups_exception& e)
     {
diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..289f017 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -3,6 +3,7 @@
 #include "MacroEvaluatedCodeVerifier.h"
 
 #include <array>
+#include <cmath>
 #include <string>
 #include <string_view>
 
@@ -20,11 +21,12 @@ class MacroEvaluatedCodeVisitor : public boost::static_visitor<>
 {
 public:
     MacroEvaluatedCodeVisitor(const std::vector<std::string>& allowed_operations, const macro_map& macro_values,
-                              int line, ELanguage language)
+                              int line, ELanguage language, const word_map* word_grammar)
         : allowed_operations(allowed_operations)
         , macro_values(macro_values)
         , line(line)
         , language(language)
+        , word_grammar(word_grammar)
     {
     }
 
@@ -40,23 +42,38 @@ public:
         }
 
         text += data.word;
-        if (data.sign)
-            text += *data.sign;
-        if (data.open_bracket)
-            text += *data.open_bracket;
+        if (data.assign)
+            text += *data.assign;
         if (was_interesting_word && data.macro)
         {
+            if (!data.value)
+                throw macro_evaluated_code_exception(make_message(MessageName::ValueMissingForHash, language));
             unsigned int val        = std::stoi(*data.value);
             auto         macro_itor = macro_values.lower_bound({val, line});
             if (macro_itor == std::end(macro_values) ||
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            auto macro_value = round_to_grammar(data.word, macro_itor->second);
+            if (data.sign && !data.open_bracket)
+            {
+                // X-#1 is never X--5
+                if (*data.sign == '-')
+                    macro_value = -macro_value;
+            }
+            else if (data.sign)
+                text += *data.sign;
+            if (data.open_bracket)
+                text += *data.open_bracket;
+            text += to_string_trunc(macro_value);
             was_modified = true;
         }
         else
         {
+            if (data.sign)
+                text += *data.sign;
+            if (data.open_bracket)
+                text += *data.open_bracket;
             if (data.value)
                 text += *data.value;
             if (data.dot)
@@ -83,11 +100,25 @@ public:
         return was_modified;
     }
 
+private:
+    // CNC rounds the value of a macro to the least increment of an address
+    double round_to_grammar(const std::string& word, double value) const
+    {
+        if (!word_grammar)
+            return value;
+        auto it = word_grammar->find(word);
+        if (it == word_grammar->cend() || it->second.decimal_to == 0)
+            return value;
+        const auto factor = std::pow(10, std::to_string(it->second.decimal_to).size());
+        return std::round(value * factor) / factor;
+    }
+
 private:
     const std::vector<std::string>& allowed_operations;
     const macro_map&                macro_values;
     const int                       line;
     const ELanguage                 language;
+    const word_map*                 word_grammar;
     bool                            was_modified{};
     bool                            was_interesting_word{};
     std::string                     text;
@@ -95,9 +126,10 @@ private:
 
 std::string MacroEvaluatedCodeVerifier::operator()(const std::vector<std::string>& allowed_operations,
                                                    const macro_map& macro_values, int line,
-                                                   const std::vector<AttributeVariant>& value, ELanguage language)
+                                                   const std::vector<AttributeVariant>& value, ELanguage language,
+                                                   const word_map* word_grammar /*= nullptr*/)
 {
-    MacroEvaluatedCodeVisitor macro_visitor(allowed_operations, macro_values, line, language);
+    MacroEvaluatedCodeVisitor macro_visitor(allowed_operations, macro_values, line, language, word_grammar);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(macro_visitor, value[x]);
 
diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.h b/parser/fanuc/MacroEvaluatedCodeVerifier.h
index 284c458..adb11aa 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.h
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.h
@@ -25,7 +25,8 @@ class PARSER_API MacroEvaluatedCodeVerifier
 {
 public:
     std::string operator()(const std::vector<std::string>& allowed_operations, const macro_map& macro_values, int line,
-                           const std::vector<AttributeVariant>& value, ELanguage language);
+                           const std::vector<AttributeVariant>& value, ELanguage language,
+                           const word_map* word_grammar = nullptr);
 };
 
 } // namespace fanuc
-- 
2.43.0


From 479dfd02479e5d9d8213ea263d6c17283109bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:31 +0000
Subject: [PATCH 11/69] fix: G20 and G21 select the word ranges of the blocks
 that follow

The selection reached the uniqueness check only, the values of an inch program
were verified against the metric ranges: G20 and then X1.1234 was an error.
---
 parser/fanuc/AllAttributesParser.cpp | 13 +++++++++++--
 parser/fanuc/AllAttributesParser.h   |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index c4ebb15..003af67 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -162,6 +162,15 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
 
+void AllAttributesParser::select_grammar(const std::vector<AttributeVariant>& value)
+{
+    const auto* const previous = active_word_grammar;
+    GrammarSelector()(word_grammar, active_word_grammar, value);
+    if (active_word_grammar != previous)
+        all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
+            *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
+}
+
 void AllAttributesParser::build_symbols()
 {
     assignable_sym.clear();
@@ -243,7 +252,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
+            select_grammar(value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -274,7 +283,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                                 other_settings.language);
         }
 
-        GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
+        select_grammar(evaluated_code.empty() ? value : value2);
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index 49ac6c7..ac2a1f0 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -115,6 +115,7 @@ private:
                                std::string& message, bool single_line_msg);
 
     void build_symbols();
+    void select_grammar(const std::vector<AttributeVariant>& value);
 
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
                       bool single_line_msg);
-- 
2.43.0


From baea563e105083aa218bae8f6f7b3cd8ff590ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:48 +0000
Subject: [PATCH 12/69] fix: tool exchange and machine base points are taken
 relative to the zero point

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 003af67..65239bd 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From 863e543957f7cfdc8d9d263db79e980a8eee819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 13/69] fix: resetting the path values restores the units, the
 rotation check and the traverse mode of a new program

---
 parser/fanuc/AllAttributesParser.cpp      | 27 +++++++++++++++++------
 parser/fanuc/AllAttributesParser.h        |  2 ++
 parser/fanuc/AttributesPathCalculator.cpp |  1 +
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 65239bd..6ccd707 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -100,22 +100,28 @@ void AllAttributesParser::init_macro_values()
 
 void AllAttributesParser::reset_attributes_path_calculator()
 {
-    attr_path_calc->reset();
+    select_default_grammar();
+    rotation_verifier = RotationVerifier{};
+    if (attr_path_calc)
+        attr_path_calc->reset();
 }
 
 const PathResult& AllAttributesParser::get_path_result() const
 {
-    return attr_path_calc->get_path_result();
+    static const PathResult no_path_result{};
+    return attr_path_calc ? attr_path_calc->get_path_result() : no_path_result;
 }
 
 const TimeResult& AllAttributesParser::get_time_result() const
 {
-    return attr_path_calc->get_time_result();
+    static const TimeResult no_time_result{};
+    return attr_path_calc ? attr_path_calc->get_time_result() : no_time_result;
 }
 
 const word_range_map& AllAttributesParser::get_word_range() const
 {
-    return attr_path_calc->get_word_range();
+    static const word_range_map no_word_range{};
+    return attr_path_calc ? attr_path_calc->get_word_range() : no_word_range;
 }
 
 void AllAttributesParser::set_renumber_start_value(unsigned int value)
@@ -135,8 +141,7 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     this->machine_tool      = machine_tool;
     this->machine_tool_type = machine_tool_type;
     this->zero_point        = std::move(zero_point);
-    active_word_grammar     = cnc_default_values.default_driver_units == EDriverUnits::Millimeter ? &word_grammar.metric
-                                                                                                  : &word_grammar.imperial;
+    default_driver_units    = cnc_default_values.default_driver_units;
     MachinePointsData machine_points_data_zero_point;
 
     const std::map<std::string, double> zero_point_axis_map = {
@@ -158,6 +163,14 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         std::make_unique<AttributesPathCalculator>(machine_tool, machine_tool_type, machine_points_data_zero_point,
                                                    kinematics, cnc_default_values, other_settings.language);
 
+    select_default_grammar();
+    rotation_verifier = RotationVerifier{};
+}
+
+void AllAttributesParser::select_default_grammar()
+{
+    active_word_grammar =
+        default_driver_units == EDriverUnits::Millimeter ? &word_grammar.metric : &word_grammar.imperial;
     all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
@@ -257,7 +270,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
 
-        if (parser_settings.ncsettings_code_analysis)
+        if (parser_settings.ncsettings_code_analysis && attr_path_calc)
         {
             RangeVerifier()(machine_tool_type, attr_path_calc->get_kinematics(),
                             evaluated_code.empty() ? value : value2, other_settings.language);
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index ac2a1f0..22a909d 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -115,6 +115,7 @@ private:
                                std::string& message, bool single_line_msg);
 
     void build_symbols();
+    void select_default_grammar();
     void select_grammar(const std::vector<AttributeVariant>& value);
 
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
@@ -144,6 +145,7 @@ private:
     word_symbols                                               char_sym;
     ParserSettings                                             parser_settings{};
     OtherSettings                                              other_settings{};
+    EDriverUnits                                               default_driver_units{};
     EMachineTool                                               machine_tool{};
     EMachineToolType                                           machine_tool_type{};
     EFanucParserType                                           fanuc_parser_type;
diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..b312e92 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -453,6 +453,7 @@ void AttributesPathCalculator::reset()
     active_g9697     = {};
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
+    active_auto_rapid_traverse_after_tool_exchange = false;
     active_t.clear();
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
-- 
2.43.0


From 2d5ce7391775a542061f974f3b23b034c08af3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 14/69] fix: macro expressions that cannot be evaluated are
 reported, SINH is evaluated

---
 parser/fanuc/ValueCalculator.cpp | 55 ++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..5ba8358 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <vector>
 
 #ifndef M_PI
 #define M_PI (3.14159265358979323846)
@@ -234,13 +235,14 @@ public:
         else if (x.operator_name == "/")
             return lhs / rhs;
         else if (x.operator_name == "AND")
-            return static_cast<int>(lhs) & static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) & to_int(rhs, x.operator_name);
         else if (x.operator_name == "OR")
-            return static_cast<int>(lhs) | static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) | to_int(rhs, x.operator_name);
         else if (x.operator_name == "XOR")
-            return static_cast<int>(lhs) ^ static_cast<int>(rhs);
-        else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+            return to_int(lhs, x.operator_name) ^ to_int(rhs, x.operator_name);
+        else if (x.operator_name == "MOD" && to_int(rhs, x.operator_name) != 0)
+            return static_cast<int>(static_cast<int64_t>(to_int(lhs, x.operator_name)) %
+                                    to_int(rhs, x.operator_name));
 
         // BOOST_ASSERT(0);
         // return 0;
@@ -260,6 +262,8 @@ public:
 #ifdef max
 #undef max
 #endif
+            if (!(rhs > -1. && rhs < 4294967296.))
+                throw eval_exception(make_message(MessageName::UnsupportedUnaryOperation, language, x.sign));
             const auto it =
                 macro_val.lower_bound({static_cast<decltype(macro_map_key::id)>(rhs), std::numeric_limits<int>::max()});
             if (it != std::end(macro_val) && it->first.id == static_cast<decltype(macro_map_key::id)>(rhs))
@@ -302,6 +306,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
@@ -310,9 +316,9 @@ public:
             return std::tanh(rhs * M_PI / 180);
         else if (x.name == "round")
             return std::round(rhs);
-        else if (x.name == "bcd")
+        else if (x.name == "bcd" && rhs > -1. && rhs < 18446744073709551616.)
             return bcd_to_ui32(static_cast<uint64_t>(rhs));
-        else if (x.name == "bin")
+        else if (x.name == "bin" && rhs > -1. && rhs < 4294967296.)
             return static_cast<double>(uint32_to_bcd(static_cast<uint32_t>(rhs)));
 
         // BOOST_ASSERT(0);
@@ -330,11 +336,43 @@ public:
         return state;
     }
 
+private:
+    int to_int(double value, const std::string& operator_name) const
+    {
+        if (!(value > -2147483649. && value < 2147483648.))
+            throw eval_exception(make_message(MessageName::UnsupportedBinaryOperation, language, operator_name));
+        return static_cast<int>(value);
+    }
+
 private:
     const macro_map& macro_val;
     const ELanguage  language;
 };
 
+// The grammar and the evaluation are recursive: every open bracket and every sign before an operand takes a level.
+static bool is_nested_too_deep(const std::string& data)
+{
+    constexpr size_t    max_depth = 250;
+    std::vector<size_t> brackets;
+    size_t              depth{};
+    for (const auto c : data)
+    {
+        if (c == '[' || c == '(')
+            brackets.push_back(++depth);
+        else if (c == '+' || c == '-' || c == '#')
+            ++depth;
+        else if (c != ' ' && c != '\t')
+        {
+            if ((c == ']' || c == ')') && !brackets.empty())
+                brackets.pop_back();
+            depth = brackets.empty() ? 0 : brackets.back();
+        }
+        if (depth > max_depth)
+            return true;
+    }
+    return false;
+}
+
 template <typename Iterator>
 class calculator : public qi::grammar<Iterator, program(), qi::blank_type>
 {
@@ -405,6 +443,9 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 
     try
     {
+        if (is_nested_too_deep(data))
+            throw eval_exception(make_message(MessageName::UnsupportedOperation, language, "["));
+
         program p;
 
         ret = qi::phrase_parse(iter, pos_end, calc, qi::blank, p);
-- 
2.43.0


From 1c5dc0221e52ff4c1e3e92eb868aaf105bd09079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 15/69] fix: the reason why a macro cannot be evaluated is
 reported

---
 parser/fanuc/AllAttributesParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6ccd707..598fef8 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -243,9 +243,11 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             return ret;
         }
 
-        if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
+        std::string evaluator_message;
+        if (!MacroEvaluator::evaluate(macro_values, line, value, evaluator_message, single_line_msg,
+                                      other_settings.language))
         {
-            message = all_attr_grammar->get_message();
+            message = evaluator_message.empty() ? all_attr_grammar->get_message() : evaluator_message;
             return false;
         }
 
-- 
2.43.0


From 444865f817573350a5354f9b44d68f14edab2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 16/69] fix: the second assignment of a macro on a line
 replaces the first one

---
 parser/fanuc/MacroEvaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..827a882 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -99,8 +99,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
+                                      macro_result_value);
     }
 
     return true;
-- 
2.43.0


From b1a006cf10e83ad278d4ca6efd0a7fb0dbda52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:41 +0000
Subject: [PATCH 17/69] fix: unit conversion keeps the trailing zeros of a
 value without decimal places

---
 parser/fanuc/UnitConverter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..dcacd92 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -128,8 +128,11 @@ public:
         ostr << std::fixed << std::setprecision(precision) << dvalue;
 
         std::string ret_str(ostr.str());
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        if (precision > 0)
+        {
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        }
 
         const auto pos = ret_str.find('.');
         if (pos != std::string::npos)
-- 
2.43.0


From 44b8e4fda3f8c8b83afbf3fa55761800a652496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:41 +0000
Subject: [PATCH 18/69] fix: axes rotation transforms G codes written with
 leading zeros

---
 parser/fanuc/AxesRotator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..f5444b5 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -194,15 +195,17 @@ public:
             if (!data.value)
                 return;
 
-            auto& val = *data.value;
-            if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
+            auto&      val    = *data.value;
+            const auto zeroes = std::min(val.find_first_not_of('0'), val.size());
+            const auto code   = val.substr(zeroes);
+            if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
                 return;
 
-            const auto wt_item = wtm.find({data.word, val});
+            const auto wt_item = wtm.find({data.word, code});
             if (wt_item == std::end(wtm))
                 return;
 
-            val = std::to_string(wt_item->second.value);
+            val = val.substr(0, zeroes) + std::to_string(wt_item->second.value);
         }
     }
 
-- 
2.43.0


From 1a3a6febb0846fb5116aebbe1b864d6ed461b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 19/69] fix: position after a tool exchange does not read a
 dead temporary

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b312e92..3e60f77 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -390,7 +390,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int&                           g;
-    const EProgrammingType&              g9091;
+    const EProgrammingType               g9091;
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 07703c5fedf667ce0e73c842cda705bf050374a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 20/69] fix: splitting a file reports wrong settings instead of
 throwing, empty parts are null

---
 parser/fanuc/AllAttributesParser.cpp        | 19 ++++++++++++++-----
 parser/fanuc/AllAttributesParserWrapper.cpp |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 598fef8..b1e10fb 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -502,6 +502,10 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 {
     try
     {
+        static const CncDefaultValues no_cnc_default_values{};
+
+        const auto& cnc_default_values = attr_path_calc ? attr_path_calc->get_cnc_default_values() : no_cnc_default_values;
+
         FileSplitter fs(file_splitting, other_settings.language);
         if (file_splitting.type == FileSplittingType::text)
         {
@@ -533,9 +537,9 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
                 vtmp.emplace_back(std::move(v));
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
@@ -546,10 +550,10 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             }
 
             if (file_splitting.type == FileSplittingType::work_motion_path)
-                fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
+                fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value,
                             vec_path_result);
             else
-                fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
+                fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
             RenumberSettings rs{"N", 1, 0, 0, false, false};
@@ -577,7 +581,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
             }
 
-            fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
+            fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value);
 
             RenumberSettings rs{"N", 1, 0, 0, false, false};
             for (auto& x : value)
@@ -585,6 +589,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..a5f4976 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{};
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From 1c2fc1f923e9faed3f21321dcf23fa094a10ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:14 +0000
Subject: [PATCH 21/69] fix: blocks of a split file get consecutive numbers

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index b1e10fb..0c1e50f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -556,7 +556,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -583,7 +583,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From 3b165a1aeb74c0fa14cb2569d3c43f23d71b0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:27 +0000
Subject: [PATCH 22/69] fix: splitting a file by a text does not lose the rest
 of a wrong block

---
 parser/fanuc/AllAttributesParser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 0c1e50f..3692e36 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -518,7 +518,17 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto       line(t[x]);
+                    const auto ret =
+                        renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                    boost::algorithm::trim(line);
+                    if (!line.empty() && !ret)
+                    {
+                        value.clear();
+                        return false;
+                    }
+                }
                 ++cnt;
             }
         }
-- 
2.43.0


From 27912e2a0a5479a80a5390064bc6c08059f0273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 23/69] fix: a word with an expression as the value does not
 end the parser

---
 parser/fanuc/SystemMacroAssigner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/SystemMacroAssigner.cpp b/parser/fanuc/SystemMacroAssigner.cpp
index cafd964..24fc655 100644
--- a/parser/fanuc/SystemMacroAssigner.cpp
+++ b/parser/fanuc/SystemMacroAssigner.cpp
@@ -31,6 +31,9 @@ public:
 
     void operator()(const DecimalAttributeData& data)
     {
+        if (data.open_bracket || data.macro || (!data.value && !data.value2))
+            return; // the value is not a number
+
         auto value_extractor = [](const DecimalAttributeData& data) {
             std::string str;
             if (data.sign)
-- 
2.43.0


From 3db7c02eae3e60ffd70a153566236ddd2cd551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:28 +0000
Subject: [PATCH 24/69] fix: drill cycles without Q or with a tiny or zero peck
 depth

---
 parser/fanuc/AttributesPathCalculator.cpp | 4 +++-
 parser/fanuc/PathCalculator.cpp           | 9 +++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 3e60f77..2b223d1 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1197,7 +1197,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                const bool peck = current_g == static_cast<int>(EDrillGmode::G73) ||
+                                  current_g == static_cast<int>(EDrillGmode::G83);
+                if (qit == std::end(values) || (peck && !(qit->second > 0.)))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..6e3df97 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -608,8 +608,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
-            auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
+            auto Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
                 Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
@@ -631,8 +630,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
-            auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
+            auto Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
                 Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
@@ -736,8 +734,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         const auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-        const int  liczbaQ               = static_cast<int>(sumaQ);
-        auto       Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Rparam);
+        auto       Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Rparam);
         if (resztagleb > 0)
             Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
         const auto Cycle_distance_Rapid = Cycle_distance - Cycle_distance_Linear;
-- 
2.43.0


From 755ce3e70ab10990182cc9f134176299ae46031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:35 +0000
Subject: [PATCH 25/69] fix: helix blocks without the third axis do not read an
 empty value

---
 parser/fanuc/AttributesPathCalculator.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 2b223d1..b2c815c 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -977,16 +977,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z.value_or(0.), *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z.value_or(0.), *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z.value_or(0.), *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z.value_or(0.), *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -996,9 +996,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z.value_or(0.), *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z.value_or(0.), *r);
                     }
                     else
                     {
@@ -1011,22 +1011,24 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             {
                 const auto x_curr = x ? *x : *x_prev;
                 const auto y_curr = y ? *y : *y_prev;
+                if (!z_prev)
+                    throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
                 const auto z_curr = z ? *z : *z_prev;
                 if (active_helix == EHelixType::Full)
                 {
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
-- 
2.43.0


From 0b9b69defb153daae591f61a9f9fec8e0ff68e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 26/69] fix: the position after K incremental holes is the last
 hole

---
 parser/fanuc/AttributesPathCalculator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b2c815c..07d664b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -633,7 +633,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }*/
     }
 
-    auto current_g = g ? *g : active_g;
+    auto moved_values = values; // where the block ends, may be further than the programmed values
+    auto current_g    = g ? *g : active_g;
     auto current_f = f ? *f : active_f;
     auto current_s = s ? *s : active_s;
 
@@ -1273,6 +1274,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     path_result.work_motion += work_motion;
                     path_result.fast_motion += fast_motion;
                 }
+                for (const auto& axis : {axis1, axis2})
+                    if (auto it = moved_values.find(axis); it != std::end(moved_values))
+                        it->second *= holes;
             }
             else
             {
@@ -1356,7 +1360,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
             &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+        copy_on_return cr{active_g, active_g9091, moved_values, prev_values, word_range, &other_g};
 }
 
 } // namespace fanuc
-- 
2.43.0


From 909de761c1b23f9cdadb91408ec90e4925e43042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 27/69] fix: arcs with an end on an axis or both ends in one
 quadrant can be longer than a half of the circle

---
 parser/fanuc/PathCalculator.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 6e3df97..723990c 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -132,6 +132,19 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             }
         }
 
+        // Quadrants do not tell how long the arc is when an end lies on an axis or both ends lie in the same quadrant,
+        // the angle of the ends does
+        const bool same_quadrant = Prev == 0 || Curr == 0 || Prev == Curr;
+        if (same_quadrant && std::abs(std::hypot(CurtempX, CurtempY) - Rarcradius) < 1e-3 * Rarcradius)
+        {
+            auto sweep = (atan2(CurtempY, CurtempX) - atan2(PretempY, PretempX)) * Deg;
+            if (Direction_CW_CCW == 2)
+                sweep = -sweep;
+            if (sweep < 0.0)
+                sweep += 360;
+            longArc = sweep > 180;
+        }
+
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
             AlphaArc = 360 - AlphaArc;
-- 
2.43.0


From 0c26310febe45991f1a3ca709153bcf563b52923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:22 +0000
Subject: [PATCH 28/69] fix: heidenhain parser returns empty path results
 instead of throwing an int

---
 parser/heidenhain/AllAttributesParser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/heidenhain/AllAttributesParser.h b/parser/heidenhain/AllAttributesParser.h
index 916dd17..4651f13 100644
--- a/parser/heidenhain/AllAttributesParser.h
+++ b/parser/heidenhain/AllAttributesParser.h
@@ -51,7 +51,7 @@ public:
 
     virtual EDriverUnits get_unit_system() const override
     {
-        throw(0);
+        return EDriverUnits::Millimeter;
     }
 
     // virtual const macro_map& get_macro_values() const override;
@@ -62,11 +62,13 @@ public:
     }
     virtual const PathResult& get_path_result() const override
     {
-        throw(0);
+        static const PathResult no_path_result{};
+        return no_path_result;
     }
     virtual const TimeResult& get_time_result() const override
     {
-        throw(0);
+        static const TimeResult no_time_result{};
+        return no_time_result;
     }
 
     // virtual const word_range_map& get_word_range() const override;
-- 
2.43.0


From 8e178c84921a05f3a9788b99d4c50a1ac7d23a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:05 +0000
Subject: [PATCH 29/69] fix: ASIN, ACOS and ATAN give the angle in degrees

---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 5ba8358..efe1630 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -285,11 +285,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From 39839f9d44d9a3b2c4825890d0b408ad9aab7c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:16 +0000
Subject: [PATCH 30/69] fix: FIX rounds towards zero and FUP away from zero

---
 parser/fanuc/ValueCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index efe1630..0fbc800 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -291,7 +291,7 @@ public:
         else if (x.name == "atan")
             return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
-            return std::ceil(rhs);
+            return rhs < 0. ? std::floor(rhs) : std::ceil(rhs);
         else if (x.name == "cos")
             return std::cos(rhs * M_PI / 180);
         else if (x.name == "cosh")
@@ -299,7 +299,7 @@ public:
         else if (x.name == "exp")
             return std::exp(rhs);
         else if (x.name == "floor")
-            return std::floor(rhs);
+            return std::trunc(rhs);
         else if (x.name == "log10")
             return std::log10(rhs);
         else if (x.name == "log")
-- 
2.43.0


From 069626ede946468e469c55c585797e14c9b651ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:26 +0000
Subject: [PATCH 31/69] fix: BIN converts from BCD and BCD converts to BCD

---
 parser/fanuc/ValueCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 0fbc800..d8bb209 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -316,9 +316,9 @@ public:
             return std::tanh(rhs * M_PI / 180);
         else if (x.name == "round")
             return std::round(rhs);
-        else if (x.name == "bcd" && rhs > -1. && rhs < 18446744073709551616.)
+        else if (x.name == "bin" && rhs > -1. && rhs < 18446744073709551616.)
             return bcd_to_ui32(static_cast<uint64_t>(rhs));
-        else if (x.name == "bin" && rhs > -1. && rhs < 4294967296.)
+        else if (x.name == "bcd" && rhs > -1. && rhs < 4294967296.)
             return static_cast<double>(uint32_to_bcd(static_cast<uint32_t>(rhs)));
 
         // BOOST_ASSERT(0);
-- 
2.43.0


From cd9f8e6a97438d09c4ced03a13bfe7e032ce9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 32/69] fix: a macro is not assigned the result of a division
 by zero or of an invalid root

---
 parser/fanuc/ValueCalculator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index d8bb209..57f38fb 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -332,6 +332,9 @@ public:
         for (operation const& oper : x.rest)
         {
             state = (*this)(oper, state);
+            if (!std::isfinite(state))
+                throw eval_exception(
+                    make_message(MessageName::UnsupportedBinaryOperation, language, oper.operator_name));
         }
         return state;
     }
@@ -454,6 +457,8 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
         printer()(p);
 #endif
         value = eval(macro_values, language)(p);
+        if (!std::isfinite(value))
+            throw eval_exception(make_message(MessageName::UnsupportedOperation, language, data));
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
-- 
2.43.0


From 57afd518d48b64f670d3442b94416321de58660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:40 +0000
Subject: [PATCH 33/69] fix: the text of a diagnostic is not cut at a colon

---
 nclangsrv/JsonMessageHandler.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 98136d6..9ebe5d9 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1233,17 +1233,19 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                 line = atoi(tokens[0].c_str());
                 if (line > 0)
                     line--;
-                if (tokens.size() > 2)
+                // the message itself can have colons: "line: message" or "line:column: message"
+                size_t     message_pos = error_message.find(':');
+                const bool has_column  = tokens.size() > 2 and not tokens[1].empty() and
+                                        tokens[1].find_first_not_of("0123456789") == std::string::npos;
+                if (has_column)
                 {
                     character = atoi(tokens[1].c_str());
                     if (character > 0)
                         character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
+                    message_pos = error_message.find(':', message_pos + 1);
                 }
+                if (message_pos != std::string::npos)
+                    result_message = boost::algorithm::trim_copy(error_message.substr(message_pos + 1));
             }
 
             if (line != 0 or character != 0 or not result_message.empty())
-- 
2.43.0


From 8b007451a6dd897b1f6a75e42ae5837fb948c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:41 +0000
Subject: [PATCH 34/69] fix: a macro expression with too many close brackets is
 rejected

---
 parser/fanuc/ValueCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 57f38fb..8461ee7 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -452,6 +452,8 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
         program p;
 
         ret = qi::phrase_parse(iter, pos_end, calc, qi::blank, p);
+        if (ret && iter != pos_end && *iter == ']')
+            throw eval_exception(make_message(MessageName::NonMatchingCloseBracket, language));
 
 #ifndef NDEBUG
         printer()(p);
-- 
2.43.0


From d3c4acd78a14856c1e91c811ef9f20a404feccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:10 +0000
Subject: [PATCH 35/69] fix: decimals of the feed are compared with the maximum
 working feed

---
 parser/fanuc/RangeVerifier.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/RangeVerifier.cpp b/parser/fanuc/RangeVerifier.cpp
index 86196e8..182759e 100644
--- a/parser/fanuc/RangeVerifier.cpp
+++ b/parser/fanuc/RangeVerifier.cpp
@@ -46,10 +46,14 @@ public:
         }
         else if (data.word == "F")
         {
-            if (data.value && std::stoi(*data.value) > kinematics.max_working_feed)
+            if (!data.value)
+                return;
+
+            const auto feed = data.value2 ? *data.value + "." + *data.value2 : *data.value;
+            if (std::stod(feed) > kinematics.max_working_feed)
                 throw range_verifier_exception(make_message(MessageName::ValueHigherThanAllowed, language,
                                                             std::string("F"),
-                                                            *data.value, std::to_string(kinematics.max_working_feed)));
+                                                            feed, std::to_string(kinematics.max_working_feed)));
         }
     }
 
-- 
2.43.0


From 97789d02577286d09aad1ceb23f35b900d870081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:10 +0000
Subject: [PATCH 36/69] fix: the path of a block rejected for a missing feed is
 not counted again by the next block

---
 parser/fanuc/AttributesPathCalculator.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 07d664b..f23085a 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1341,16 +1341,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     time_result.tool_total += time_result.work_motion + time_result.fast_motion;
     time_result.total += time_result.work_motion + time_result.fast_motion;
 
-    if (path_result.work_motion != 0.0 && active_f < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
-    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
-
-    if (path_result.work_motion != 0.0 && active_f > 0.0)
-        if (lathe_programming && current_feed_mode == EFeedMode::PerRevolution)
-            if (active_s < 0.0)
-                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
-
     if (move_to_tool_exchange_point)
         copy_on_return cr{
             active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
@@ -1361,6 +1351,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             &other_g};
     else
         copy_on_return cr{active_g, active_g9091, moved_values, prev_values, word_range, &other_g};
+
+    if (path_result.work_motion != 0.0 && active_f < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
+    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
+
+    if (path_result.work_motion != 0.0 && active_f > 0.0)
+        if (lathe_programming && current_feed_mode == EFeedMode::PerRevolution)
+            if (active_s < 0.0)
+                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
 }
 
 } // namespace fanuc
-- 
2.43.0


From 404dfff2fe942928cb5c9f005356c8441a15e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 37/69] fix: dwell times, offsets and rotation centres are not
 taken for motion

---
 parser/fanuc/AttributesPathCalculator.cpp | 38 ++++++++++++++---------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index f23085a..c801db3 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -169,6 +169,7 @@ public:
             else
             {
                 auto tmp = *data.value;
+                tmp.erase(0, std::min(tmp.find_first_not_of('0'), tmp.size() - 1)); // G04 is G4
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
@@ -303,13 +304,25 @@ auto get_ignore_g_codes()
         {"J", {"68.2", "68.4"}},
         {"K", {"68.2", "68.4"}},
         {"R", {"5", "5.1", "6.2", "10", "68", "68.3"}},
-        {"U", {"71", "72"}},
+        {"P", {"4"}},
+        {"U", {"4", "71", "72"}},
         {"W", {"71", "72"}},
     };
 
     return ignore_g_codes;
 }
 
+bool is_ignored(const std::string& word, const std::vector<std::string>& other_g)
+{
+    const auto& ignore_g_codes = get_ignore_g_codes();
+    const auto& axis           = ignore_g_codes.find(word);
+    return axis != std::cend(ignore_g_codes) &&
+           std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
+               return std::any_of(std::cbegin(other_g), std::cend(other_g),
+                                  [&](const auto& og_value) { return og_value == axis_value; });
+           });
+}
+
 struct copy_on_return
 {
     copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
@@ -333,18 +346,8 @@ struct copy_on_return
             if (it.first == "Q" || it.first == "L")
                 continue;
 
-            if (og && !og->empty())
-            {
-                const auto& ignore_g_codes = get_ignore_g_codes();
-                if (const auto& axis = ignore_g_codes.find(it.first); axis != std::cend(ignore_g_codes))
-                {
-                    if (std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
-                            return std::any_of(std::cbegin(*og), std::cend(*og),
-                                               [&](const auto& og_value) { return og_value == axis_value; });
-                        }))
-                        continue;
-                }
-            }
+            if (og && is_ignored(it.first, *og))
+                continue;
 
             if (g9091 == EProgrammingType::Incremental && (it.first == "X" || it.first == "Y" || it.first == "Z"))
             {
@@ -491,7 +494,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    auto        values               = attributes_visitor.get_values();
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -575,7 +578,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g),
-                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
+                     [](const std::string& val) { return val == "4"; }) != std::cend(other_g))
     {
         if (const auto xit = values.find("X"); xit != std::cend(values))
             time_result.total += xit->second;
@@ -585,6 +588,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             time_result.total += xit->second;
     }
 
+    // dwell times, offsets and centres of rotation are not the points to move to, G53 is a motion
+    if (std::find(std::cbegin(other_g), std::cend(other_g), "53") == std::cend(other_g))
+        for (auto it = std::begin(values); it != std::end(values);)
+            it = is_ignored(it->first, other_g) ? values.erase(it) : std::next(it);
+
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
         std::cend(other_g))
         move_to_machine_base_point = true;
-- 
2.43.0


From 610731d1a50f25486a3e35aa187ff0a58b80789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:00 +0000
Subject: [PATCH 38/69] fix: modal words in blocks without motion are kept and
 do not repeat an arc or a cycle

---
 parser/fanuc/AttributesPathCalculator.cpp | 43 +++++++++++++++++------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c801db3..a1b8009 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -570,6 +570,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            if (f)
+                active_f = *f;
+            if (s)
+                active_s = *s;
+            if (g9697)
+                active_g9697 = *g9697;
+            if (feed_mode)
+                active_feed_mode = *feed_mode;
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
@@ -652,6 +660,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto current_g_return  = g_return ? *g_return : active_g_return;
     const auto current_feed_mode = feed_mode ? *feed_mode : active_feed_mode;
 
+    const auto save_modal_values = [&]() {
+        active_f         = current_f;
+        active_s         = current_s;
+        active_g         = current_g;
+        active_g171819   = current_g171819;
+        active_g_return  = current_g_return;
+        active_g9091     = current_g9091;
+        active_g9697     = current_g9697;
+        active_feed_mode = current_feed_mode;
+    };
+
+    // P, L, U of a subprogram call and the like do not repeat the active arc or cycle
+    const auto was_motion_word = std::any_of(std::cbegin(values), std::cend(values), [](const auto& it) {
+        return it.first != "P" && it.first != "L" && it.first != "U";
+    });
+
     const auto lathe_programming =
         machine_tool_type == EMachineToolType::Lathe ||
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
@@ -747,8 +771,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && !was_motion_word) // only modal values are useful here
+        {
+            save_modal_values();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1119,8 +1146,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && values.size() == 0) // seems nothing useful here
+        if (!g && !was_motion_word) // only modal values are useful here
+        {
+            save_modal_values();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
@@ -1301,14 +1331,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         return; // don't save anything
     }
 
-    active_f         = current_f;
-    active_s         = current_s;
-    active_g         = current_g;
-    active_g171819   = current_g171819;
-    active_g_return  = current_g_return;
-    active_g9091     = current_g9091;
-    active_g9697     = current_g9697;
-    active_feed_mode = current_feed_mode;
+    save_modal_values();
 
     path_result.tool_id = active_t;
     path_result.tool_total += path_result.work_motion + path_result.fast_motion;
-- 
2.43.0


From 5cf662e8a801d1762323545a65c24b98b0bbbc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:47 +0000
Subject: [PATCH 39/69] fix: a code of an arc or a cycle without motion words
 does not move

---
 parser/fanuc/AttributesPathCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index a1b8009..7550f95 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -771,7 +771,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (current_g == 2 || current_g == 3)
     {
-        if (!g && !was_motion_word) // only modal values are useful here
+        if (!was_motion_word) // only modal values are useful here
         {
             save_modal_values();
             return;
@@ -1146,7 +1146,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
-        if (!g && !was_motion_word) // only modal values are useful here
+        if (!was_motion_word) // only modal values are useful here
         {
             save_modal_values();
             return;
-- 
2.43.0


From 651bf7d22682cad729a84c60bab7c6d87d08be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 40/69] fix: time at constant surface speed follows the
 diameter, not the length of the path

---
 parser/fanuc/AttributesPathCalculator.cpp | 25 +++++++++++++++++------
 parser/fanuc/MathUtils.h                  |  8 ++++----
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 7550f95..07affd3 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -2,7 +2,9 @@
 
 #include "AttributesPathCalculator.h"
 
+#include <algorithm>
 #include <array>
+#include <cmath>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -1348,13 +1350,24 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (current_g9697 == EConstantSurfaceSpeedControl::G96)
             {
-                double rpm{};
-                if (units == EDriverUnits::Inch)
-                    rpm = MathUtils::CalcTimeCSSinch(active_s, path_result.work_motion);
-                else // Metric
-                    rpm = MathUtils::CalcTimeCSSmm(active_s, path_result.work_motion);
+                // the spindle speed follows the diameter, the mean diameter gives the time of a straight cut
+                const auto x_start  = get_optional_value(prev_values, "X").value_or(0.);
+                const auto x_moved  = get_optional_value(moved_values, "X");
+                const auto x_end    = !x_moved ? x_start
+                                      : current_g9091 == EProgrammingType::Incremental ? x_start + *x_moved
+                                                                                       : *x_moved;
+                const auto x_mean   = (std::abs(x_start) + std::abs(x_end)) / 2;
+                const auto diameter = lathe_non_diameter ? x_mean : 2 * x_mean;
+                double     rpm      = kinematics.maximum_spindle_speed;
+                if (diameter > 0.0)
+                {
+                    const auto css_rpm = units == EDriverUnits::Inch ? MathUtils::CalcTimeCSSinch(active_s, diameter)
+                                                                     : MathUtils::CalcTimeCSSmm(active_s, diameter);
+                    rpm                = rpm > 0.0 ? std::min(rpm, css_rpm) : css_rpm;
+                }
                 const auto feed_minutes = MathUtils::CalcFeedMinutes(active_f, rpm);
-                time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, feed_minutes);
+                if (feed_minutes > 0.0)
+                    time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, feed_minutes);
             }
             else // G97
             {
diff --git a/parser/fanuc/MathUtils.h b/parser/fanuc/MathUtils.h
index f2d5701..c6e648c 100644
--- a/parser/fanuc/MathUtils.h
+++ b/parser/fanuc/MathUtils.h
@@ -47,14 +47,14 @@ public:
         return F * S;
     }
 
-    static double CalcTimeCSSmm(double S, double Path)
+    static double CalcTimeCSSmm(double S, double Diameter)
     {
-        return (S * 1000) / (M_PI * Path);
+        return (S * 1000) / (M_PI * Diameter);
     }
 
-    static double CalcTimeCSSinch(double S, double Path)
+    static double CalcTimeCSSinch(double S, double Diameter)
     {
-        return (S * 12) / (M_PI * Path);
+        return (S * 12) / (M_PI * Diameter);
     }
 };
 
-- 
2.43.0


From 5cc087da487dccc24b870f7c72237d0f92518ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:16 +0000
Subject: [PATCH 41/69] fix: a renumbered block does not keep the sign or the
 macro of its old number

---
 parser/fanuc/Renumberer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/Renumberer.cpp b/parser/fanuc/Renumberer.cpp
index 8f29a67..79591d5 100644
--- a/parser/fanuc/Renumberer.cpp
+++ b/parser/fanuc/Renumberer.cpp
@@ -64,6 +64,7 @@ void Renumberer::renumber(std::vector<AttributeVariant>& value, const RenumberSe
             modify_existing_one = true;
             if (renumber_settings.frequency < 2 || (renumber_settings.frequency > 1 && current_frequency == 0))
             {
+                *attr_dec      = DecimalAttributeData{};
                 attr_dec->word = renumber_settings.word;
                 if (renumber_settings.leading_zeroes && leading_zeroes_num > 0)
                     attr_dec->value = to_string_leading_zeroes(counter, leading_zeroes_num);
-- 
2.43.0


From e80bd41fa7f5bcd74dbaed566cd247cfce0112b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 42/69] fix: the error position in an evaluated block does not
 read freed memory

---
 parser/fanuc/AllAttributesParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 3692e36..6fda332 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -229,6 +229,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     bool              evaluated_code_part{};
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
+    std::string       evaluated_code; // the position of an error in it is needed after the block below has ended
 
     try
     {
@@ -253,7 +254,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         std::vector<AttributeVariant> value2;
 
-        auto evaluated_code =
+        evaluated_code =
             MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language,
                                          active_word_grammar);
         if (!evaluated_code.empty())
-- 
2.43.0


From 07de6d057639c30caaf2fa398f221c3747c2ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 43/69] fix: an empty line of a split file does not count the
 motion of the block before it again

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6fda332..7020e02 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -548,9 +548,9 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
                 vtmp.emplace_back(std::move(v));
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : get_path_result());
                 else
-                    vec_time_result.push_back(get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From eca8c922d40b3009b33007b140a2e64596519c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:01 +0000
Subject: [PATCH 44/69] fix: the position after a cycle in the XZ and YZ planes
 is the hole, not its depth

---
 parser/fanuc/AttributesPathCalculator.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 07affd3..496a163 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -329,13 +329,15 @@ struct copy_on_return
 {
     copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
-                   word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
+                   word_range_map& word_range, const std::vector<std::string>* other_g = nullptr,
+                   const std::string& depth_axis = "Z")
         : v(values)
         , pv(prev_values)
         , wr(word_range)
         , og(other_g)
         , g(active_g)
         , g9091(active_g9091)
+        , depth(depth_axis)
     {
     }
 
@@ -343,7 +345,7 @@ struct copy_on_return
     {
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
+            if (it.first == depth && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
                 continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
@@ -396,6 +398,7 @@ private:
     const std::vector<std::string>*      og;
     const int&                           g;
     const EProgrammingType               g9091;
+    const std::string                    depth;
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
@@ -651,7 +654,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }*/
     }
 
-    auto moved_values = values; // where the block ends, may be further than the programmed values
+    std::string depth_axis   = "Z";    // of a cycle, its value is not where the block ends
+    auto        moved_values = values; // where the block ends, may be further than the programmed values
     auto current_g    = g ? *g : active_g;
     auto current_f = f ? *f : active_f;
     auto current_s = s ? *s : active_s;
@@ -1218,6 +1222,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 static_cast<fn_drill_cycle_hole_incr*>(&PathCalculator::DrillCyclePathHole_G19);
         }
 
+        // lathes without Y do not have the depth in Y
+        if (machine_tool != EMachineTool::lathe_zx && machine_tool != EMachineTool::lathe_zxc)
+            depth_axis = axis_gleb;
+
         const auto k = get_optional_value(values, "K");
         if (path_result.hole_number == 0 || k) // we want to calculate this even though *k=0 or k is with G90 because
                                                // the results may be needed in next blocks
@@ -1394,7 +1402,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
             &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, moved_values, prev_values, word_range, &other_g};
+        copy_on_return cr{active_g, active_g9091, moved_values, prev_values, word_range, &other_g, depth_axis};
 
     if (path_result.work_motion != 0.0 && active_f < 0.0)
         throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
-- 
2.43.0


From 554d26ed1ce80e3f4223ffc5be212a6a983f8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 45/69] fix: a drilling cycle with an incremental depth does
 not have a negative path

---
 parser/fanuc/PathCalculator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 723990c..16a52a2 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -430,14 +430,17 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         {
             if (GreturnMode == EDrillGreturnMode::G98)
             {
+                if (Zpre >= Rparam)
+                    return std::make_pair(std::abs(Zgleb), 2 * (Zpre - Rparam) + std::abs(Zgleb));
+
                 auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
                 auto Cycle_distance_Linear = 2 * std::abs(Zgleb) - Cycle_distance_Rapid;
                 return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
-                auto Cycle_distance_Rapid  = Zpre - Rparam + Zgleb;
-                auto Cycle_distance_Linear = Zgleb;
+                auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
+                auto Cycle_distance_Linear = std::abs(Zgleb);
                 return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
         }
@@ -615,7 +618,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         int mnoznikG98G99 = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
-            auto Gleb_rzeczyw          = Zgleb;
+            auto Gleb_rzeczyw          = std::abs(Zgleb);
             auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
             auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
-- 
2.43.0


From a78c93faa14c500d643d2ad9e55b72dc6d2b75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:48 +0000
Subject: [PATCH 46/69] fix: the way down to a negative reference level of a
 cycle is counted

---
 parser/fanuc/PathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 16a52a2..80737d1 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -457,7 +457,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 if (Zpre > 0 && Zgleb < 0)
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
+                    auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zpre) + std::abs(Zgleb);
                     return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
                 }
                 else
-- 
2.43.0


From c30e087ac0a252d045038f1d284c2a86bb8a373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:01 +0000
Subject: [PATCH 47/69] fix: the radius of an arc is not truncated and short
 arcs are not full circles

---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 80737d1..8f8ce2b 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -150,7 +150,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -173,7 +173,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -181,7 +181,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -203,7 +203,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -230,7 +230,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -280,7 +280,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -291,7 +291,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From 02ba74d1727d4ef6117124e596a813389ba1861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:38 +0000
Subject: [PATCH 48/69] fix: a cut per revolution without a spindle speed does
 not take a negative time

---
 parser/fanuc/AttributesPathCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 496a163..ecbba72 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1380,7 +1380,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             else // G97
             {
                 const auto feed_minutes = MathUtils::CalcFeedMinutes(active_f, active_s);
-                time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, feed_minutes);
+                if (feed_minutes > 0.0) // S may not be set yet
+                    time_result.work_motion = 60. * MathUtils::CalcTime(path_result.work_motion, feed_minutes);
             }
         }
         else // non lathe and lathe feed mode per minute
-- 
2.43.0


From fb0fdc7c6ec961b4ba60db915877e469bf4b4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 49/69] fix: a negative dwell does not take back time

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ecbba72..0a0709a 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -594,11 +594,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                      [](const std::string& val) { return val == "4"; }) != std::cend(other_g))
     {
         if (const auto xit = values.find("X"); xit != std::cend(values))
-            time_result.total += xit->second;
+            time_result.total += std::max(xit->second, 0.);
         if (const auto xit = values.find("U"); xit != std::cend(values))
-            time_result.total += xit->second;
+            time_result.total += std::max(xit->second, 0.);
         if (const auto xit = values.find("P"); xit != std::cend(values))
-            time_result.total += xit->second;
+            time_result.total += std::max(xit->second, 0.);
     }
 
     // dwell times, offsets and centres of rotation are not the points to move to, G53 is a motion
-- 
2.43.0


From 91b0985bcd2e001642bcb8c96b26a62d09d3d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:15 +0000
Subject: [PATCH 50/69] fix: a spiral with zero turns, pitch or radius does not
 make the totals not a number

---
 parser/fanuc/AttributesPathCalculator.cpp | 5 +++++
 parser/fanuc/PathCalculator.cpp           | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 0a0709a..f5fa902 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -964,6 +964,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (!j)
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, param2));
 
+            if (q && *q == 0.)
+                throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
+            if (!q && *l == 0.)
+                throw path_calc_exception(make_message(MessageName::MissingValue, language, "L"));
+
             if (q)
                 path_result.work_motion = gfunc_helix_archimedes_q(*i, *j, *q);
             else
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 8f8ce2b..e1bbf78 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -410,6 +410,9 @@ double PathCalculator::G2G3_HelixG17_ArchimedesQparam(double Icur, double Jcur,
 
 double PathCalculator::G2G3_Helix_Archimedes(double Lparam, double HRadius)
 {
+    if (HRadius == 0.)
+        return 0.;
+
     const auto aparam   = HRadius / (Lparam * 2 * M_PI);
     const auto LArchmds = aparam / 2 *
                           (Lparam * 2 * M_PI * std::sqrt(1 + std::pow(Lparam * 2 * M_PI, 2)) +
-- 
2.43.0


From 29f7d7f9cb50a692ec82c6a70311935fdb4c63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:21 +0000
Subject: [PATCH 51/69] fix: a cycle with levels out of order or a negative
 shift does not have a negative path

---
 parser/fanuc/AttributesPathCalculator.cpp | 4 ++--
 parser/fanuc/PathCalculator.cpp           | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index f5fa902..c607f26 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1260,13 +1260,13 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
                     ret = func_drill_cycle_qparam_incr(!zgleb_is_lathe_without_Y ? zglebit->second : 0.0, rit->second,
-                                                       qit->second, static_cast<EDrillGmode>(current_g),
+                                                       std::abs(qit->second), static_cast<EDrillGmode>(current_g),
                                                        current_g_return);
                 }
                 else
                 {
                     ret = func_drill_cycle_qparam(zit_prev->second, !zgleb_is_lathe_without_Y ? zglebit->second : 0.0,
-                                                  rit->second, qit->second, cnc_default_values.drill_cycle_z_value,
+                                                  rit->second, std::abs(qit->second), cnc_default_values.drill_cycle_z_value,
                                                   static_cast<EDrillGmode>(current_g), current_g_return);
                 }
             }
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index e1bbf78..b4fedec 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -438,13 +438,13 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
 
                 auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
                 auto Cycle_distance_Linear = 2 * std::abs(Zgleb) - Cycle_distance_Rapid;
-                return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
+                return std::make_pair(Cycle_distance_Linear, std::abs(Cycle_distance_Rapid));
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
                 auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
                 auto Cycle_distance_Linear = std::abs(Zgleb);
-                return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
+                return std::make_pair(Cycle_distance_Linear, std::abs(Cycle_distance_Rapid));
             }
         }
         else
@@ -481,7 +481,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 {
                     auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
                     auto Cycle_distance_Rapid  = std::abs(Zpre) + std::abs(Zgleb);
-                    return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
+                    return std::make_pair(std::abs(Cycle_distance_Linear), Cycle_distance_Rapid);
                 }
                 else
                 {
-- 
2.43.0


From c5b7fb095af3d66cdf98b4a574e1aa58f2c5788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 52/69] fix: a word with a dot only behind a condition does not
 end the parser

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 parser/fanuc/UnitConverter.cpp            | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c607f26..b56845d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -71,7 +71,7 @@ public:
 
         if (itor != std::cend(gcode_params))
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             // if(data.assign)
@@ -101,7 +101,7 @@ public:
         }
         else if (data.word == "F")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
@@ -116,7 +116,7 @@ public:
         }
         else if (data.word == "S")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index dcacd92..0f347cf 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -97,6 +97,9 @@ public:
                          [&](const std::string& item) { return item == data.word; }))
             return;
 
+        if (!data.value && !data.value2)
+            return;
+
         std::string str_value;
         if (data.value)
             str_value += *data.value;
-- 
2.43.0


From 10c9cc8cb110218971c68c144a0df58b6da4ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 53/69] fix: a resolved code lens is that of its document, not
 of the last one asked for

---
 nclangsrv/JsonMessageHandler.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 9ebe5d9..2a03ba7 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -973,6 +973,11 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
                 }
                 entry.AddMember("command", command, a);
                 // --- optional end
+
+                // the document, preserved by the client for the codeLens/resolve request
+                rapidjson::Value data;
+                data.SetString(uri.c_str(), static_cast<rapidjson::SizeType>(uri.size()), a);
+                entry.AddMember("data", data, a);
             }
             result.PushBack(entry, a);
         }
@@ -1003,16 +1008,17 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     const auto& range  = params["range"];
     const auto& start  = range["start"];
     const int   line   = start["line"].GetInt();
+    const auto  uri =
+        params.HasMember("data") and params["data"].IsString() ? std::string(params["data"].GetString()) : mCurrentUri;
 
     PathTimeResult* pathTimeResult{};
 
-    auto it = mFileContexts.find(mCurrentUri);
+    auto it = mFileContexts.find(uri);
     if (it == mFileContexts.cend())
     {
         if (mLogger)
         {
-            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << mCurrentUri
-                   << std::endl;
+            LOGGER << "JsonMessageHandler::" << __func__ << ": Couldn't find content for uri: " << uri << std::endl;
             mLogger->flush();
         }
     }
-- 
2.43.0


From 9720b94159dd16c8cdaaf824254addf4ce0248a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 54/69] fix: hover counts characters as the protocol does on
 lines with foreign characters

---
 nclangsrv/JsonMessageHandler.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 2a03ba7..3301b1b 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -167,6 +167,18 @@ void hoverMakeResult(const std::string& contents, int line, size_t from, size_t
     result.AddMember("range", makeRange(line, from, to, a), a);
 }
 
+// A character of the protocol is an UTF-16 code unit, the lines are kept in UTF-8
+int countCharacters(const std::string& line, size_t bytes)
+{
+    int characters{};
+    for (size_t x = 0; x < bytes; ++x)
+    {
+        const auto c = static_cast<unsigned char>(line[x]);
+        characters += c >= 0xF0 ? 2 : (c & 0xC0) != 0x80 ? 1 : 0;
+    }
+    return characters;
+}
+
 std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
 {
     size_t      pos{};
@@ -174,11 +186,12 @@ std::string searchPattern(const std::regex& r, const std::string& contentLine, i
     std::smatch m;
     while (std::regex_search(strLine, m, r))
     {
-        if (character >= static_cast<int>(pos + m.position()) &&
-            character < static_cast<int>(pos + m.position() + m.str().size()))
+        const int first = countCharacters(contentLine, pos + m.position());
+        const int last  = first + static_cast<int>(m.str().size());
+        if (character >= first && character < last)
         {
-            from = pos + m.position();
-            to   = pos + m.position() + m.str().size();
+            from = first;
+            to   = last;
             break;
         }
         pos += m.position() + m.str().size();
-- 
2.43.0


From 0684a47df143d073c92e1b1566a3732ad0c6c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 55/69] fix: codes described with a leading zero are described
 when hovered

---
 nclangsrv/CodesReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nclangsrv/CodesReader.cpp b/nclangsrv/CodesReader.cpp
index aab0b90..086981c 100644
--- a/nclangsrv/CodesReader.cpp
+++ b/nclangsrv/CodesReader.cpp
@@ -43,6 +43,9 @@ bool CodesReader::read()
                     mData.emplace(std::make_pair(code, std::make_pair(title, desc.get_value<std::string>())));
                 if (addSynonim)
                     mData.emplace(std::make_pair("0" + it->first, it->second));
+                // described with a leading zero
+                if (code.size() > 1 && code[0] == '0' && code[1] != '.')
+                    mData.emplace(std::make_pair(code.substr(1), it->second));
             }
             mCodes.emplace_back(code);
             if (addSynonim)
-- 
2.43.0


From a04fb32b8d4b395ea5999de4fc11e703c549aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 56/69] fix: a variable before other words is not assigned
 their values

---
 parser/fanuc/MacroEvaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 827a882..e29ab64 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -29,6 +29,10 @@ public:
                 {
                     was_equal_sign = true;
                 }
+                else
+                {
+                    return;
+                }
             }
             else
             {
-- 
2.43.0


From cb415c2406179e4e6848e0b3d5b6398e58cf0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 57/69] fix: deeply nested configuration files and long ranges
 of descriptions do not overflow the stack

---
 nclangsrv/CodeGroupsReader.cpp   |  3 +-
 nclangsrv/CodesReader.cpp        |  3 +-
 nclangsrv/JsonFile.h             | 56 ++++++++++++++++++++++++++++++++
 nclangsrv/JsonMessageHandler.cpp | 32 +-----------------
 nclangsrv/MacrosDescReader.cpp   |  7 ++--
 nclangsrv/NCSettingsReader.cpp   |  3 +-
 nclangsrv/WordGrammarReader.cpp  |  3 +-
 7 files changed, 69 insertions(+), 38 deletions(-)
 create mode 100644 nclangsrv/JsonFile.h

diff --git a/nclangsrv/CodeGroupsReader.cpp b/nclangsrv/CodeGroupsReader.cpp
index 4fca832..828075e 100644
--- a/nclangsrv/CodeGroupsReader.cpp
+++ b/nclangsrv/CodeGroupsReader.cpp
@@ -6,6 +6,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include "JsonFile.h"
 #include "Logger.h"
 
 namespace pt = boost::property_tree;
@@ -30,7 +31,7 @@ bool CodeGroupsReader::read()
     try
     {
         pt::ptree root;
-        pt::read_json(mPath, root);
+        readJsonFile(mPath, root);
 
         mCodeGroups.clear();
         for (const auto& [groupName, arr] : root.get_child("groups"))
diff --git a/nclangsrv/CodesReader.cpp b/nclangsrv/CodesReader.cpp
index 086981c..39597e5 100644
--- a/nclangsrv/CodesReader.cpp
+++ b/nclangsrv/CodesReader.cpp
@@ -6,6 +6,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include "JsonFile.h"
 #include "Logger.h"
 
 namespace pt = boost::property_tree;
@@ -30,7 +31,7 @@ bool CodesReader::read()
     try
     {
         pt::ptree root;
-        pt::read_json(mPath, root);
+        readJsonFile(mPath, root);
 
         mData.clear();
         mCodes.clear();
diff --git a/nclangsrv/JsonFile.h b/nclangsrv/JsonFile.h
new file mode 100644
index 0000000..22e23a1
--- /dev/null
+++ b/nclangsrv/JsonFile.h
@@ -0,0 +1,56 @@
+#pragma once
+
+#include <fstream>
+#include <iterator>
+#include <string>
+
+#define BOOST_BIND_GLOBAL_PLACEHOLDERS
+#include <boost/property_tree/json_parser.hpp>
+#include <boost/property_tree/ptree.hpp>
+
+namespace nclangsrv {
+
+// The parsers and the writers of json are recursive
+inline bool nestingTooDeep(const std::string& json)
+{
+    constexpr size_t MAX_NESTING = 512;
+
+    size_t nesting{};
+    bool   string{};
+    for (size_t x = 0; x < json.size(); ++x)
+    {
+        const char c = json[x];
+        if (string)
+        {
+            if (c == '\\')
+                ++x;
+            else if (c == '"')
+                string = false;
+        }
+        else if (c == '"')
+            string = true;
+        else if (c == '[' or c == '{')
+        {
+            if (++nesting > MAX_NESTING)
+                return true;
+        }
+        else if ((c == ']' or c == '}') and nesting > 0)
+            --nesting;
+    }
+
+    return false;
+}
+
+inline void readJsonFile(const std::string& path, boost::property_tree::ptree& root)
+{
+    {
+        std::ifstream     file(path, std::ios::binary);
+        const std::string json{std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>()};
+        if (nestingTooDeep(json))
+            throw boost::property_tree::json_parser_error("too deep nesting", path, 1);
+    }
+
+    boost::property_tree::read_json(path, root);
+}
+
+} // namespace nclangsrv
diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 3301b1b..2de01c8 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -16,6 +16,7 @@
 
 #include <util.h>
 
+#include "JsonFile.h"
 #include "Logger.h"
 #include "NCSettingsReader.h"
 
@@ -37,37 +38,6 @@ constexpr int INVALID_REQUEST  = -32600;
 constexpr int METHOD_NOT_FOUND = -32601;
 constexpr int INVALID_PARAMS   = -32602;
 
-// The parser and the writer are recursive
-bool nestingTooDeep(const std::string& json)
-{
-    constexpr size_t MAX_NESTING = 512;
-
-    size_t nesting{};
-    bool   string{};
-    for (size_t x = 0; x < json.size(); ++x)
-    {
-        const char c = json[x];
-        if (string)
-        {
-            if (c == '\\')
-                ++x;
-            else if (c == '"')
-                string = false;
-        }
-        else if (c == '"')
-            string = true;
-        else if (c == '[' or c == '{')
-        {
-            if (++nesting > MAX_NESTING)
-                return true;
-        }
-        else if ((c == ']' or c == '}') and nesting > 0)
-            --nesting;
-    }
-
-    return false;
-}
-
 bool isRequest(const std::string& method)
 {
     return method == "initialize" or method == "textDocument/completion" or method == "completionItem/resolve" or
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index a923f2a..eb0afd5 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -8,6 +8,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include "JsonFile.h"
 #include "Logger.h"
 
 namespace pt = boost::property_tree;
@@ -47,7 +48,7 @@ void MacrosDescReader::readJson(const std::string& path)
     try
     {
         pt::ptree root;
-        pt::read_json(path, root);
+        readJsonFile(path, root);
 
         for (const auto& [code, titleDesc] : root.get_child("descriptions"))
         {
@@ -78,8 +79,8 @@ void MacrosDescReader::readJson(const std::string& path)
 
 void MacrosDescReader::readRanges()
 {
-    const std::regex r1("Range: #(\\d+)-#(\\d+)");
-    const std::regex r2("Range: #(\\d+)-#(\\d+) - #(\\d+)-#(\\d+)");
+    const std::regex r1("Range: #(\\d{1,10})-#(\\d{1,10})");
+    const std::regex r2("Range: #(\\d{1,10})-#(\\d{1,10}) - #(\\d{1,10})-#(\\d{1,10})");
 
     for (const auto& d : mData)
     {
diff --git a/nclangsrv/NCSettingsReader.cpp b/nclangsrv/NCSettingsReader.cpp
index bd854f9..cc83f33 100644
--- a/nclangsrv/NCSettingsReader.cpp
+++ b/nclangsrv/NCSettingsReader.cpp
@@ -6,6 +6,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include "JsonFile.h"
 #include "Logger.h"
 
 namespace pt = boost::property_tree;
@@ -77,7 +78,7 @@ bool NCSettingsReader::read()
     try
     {
         pt::ptree root;
-        pt::read_json(mNcSettingsPath, root);
+        readJsonFile(mNcSettingsPath, root);
 
         {
             mMachineTool     = root.get<EMachineTool>("machine_tool");
diff --git a/nclangsrv/WordGrammarReader.cpp b/nclangsrv/WordGrammarReader.cpp
index 056aba0..0d1f540 100644
--- a/nclangsrv/WordGrammarReader.cpp
+++ b/nclangsrv/WordGrammarReader.cpp
@@ -6,6 +6,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include "JsonFile.h"
 #include "Logger.h"
 
 namespace pt = boost::property_tree;
@@ -49,7 +50,7 @@ bool WordGrammarReader::read()
     try
     {
         pt::ptree root;
-        pt::read_json(mPath, root);
+        readJsonFile(mPath, root);
 
         mWordGrammar.metric.clear();
         mWordGrammar.imperial.clear();
-- 
2.43.0


From b702787820bbc689fb10f7bd78d5db22d6469b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 58/69] fix: the last of several changes is the content of a
 document

---
 nclangsrv/JsonMessageHandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 2de01c8..e70fb10 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -449,7 +449,9 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& textDocument   = params["textDocument"];
     const auto& contentChanges = params["contentChanges"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    // Full: each of the changes holds the whole content, the last one is the current one
+    textDocument_publishDiagnostics(textDocument["uri"].GetString(),
+                                    contentChanges[contentChanges.Size() - 1]["text"].GetString());
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
-- 
2.43.0


From 379c3cfc2b9ee274f473dea81b38866c01faed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:09 +0000
Subject: [PATCH 59/69] fix: a notification sent as a request is answered

---
 nclangsrv/JsonMessageHandler.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index e70fb10..cf1e597 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -45,6 +45,13 @@ bool isRequest(const std::string& method)
            method == "shutdown";
 }
 
+bool isNotification(const std::string& method)
+{
+    return method == "initialized" or method == "workspace/didChangeConfiguration" or
+           method == "textDocument/didOpen" or method == "textDocument/didChange" or
+           method == "textDocument/didClose" or method == "$/cancelRequest" or method == "exit";
+}
+
 // Identifier of the response: the one of the request, null when it cannot be determined
 rapidjson::Value makeId(const rapidjson::Document& request, rapidjson::Document::AllocatorType& a)
 {
@@ -286,6 +293,12 @@ bool JsonMessageHandler::parse(const std::string& json)
         return false;
     }
 
+    if (isNotification(method) and d.HasMember("id"))
+    {
+        sendError(d, METHOD_NOT_FOUND, "Not a request: " + method);
+        return false;
+    }
+
     try
     {
         dispatch(method, d);
-- 
2.43.0


From 60893d9c6c9b208d4ddc7ee80fd3de1209442242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 60/69] fix: a document is not cut at a null character

---
 nclangsrv/JsonMessageHandler.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index cf1e597..55065a2 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -38,6 +38,12 @@ constexpr int INVALID_REQUEST  = -32600;
 constexpr int METHOD_NOT_FOUND = -32601;
 constexpr int INVALID_PARAMS   = -32602;
 
+// The text can have null characters
+std::string toString(const rapidjson::Value& value)
+{
+    return {value.GetString(), value.GetStringLength()};
+}
+
 bool isRequest(const std::string& method)
 {
     return method == "initialize" or method == "textDocument/completion" or method == "completionItem/resolve" or
@@ -453,7 +459,7 @@ void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    textDocument_publishDiagnostics(toString(textDocument["uri"]), toString(textDocument["text"]));
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
@@ -463,8 +469,8 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& contentChanges = params["contentChanges"];
 
     // Full: each of the changes holds the whole content, the last one is the current one
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(),
-                                    contentChanges[contentChanges.Size() - 1]["text"].GetString());
+    textDocument_publishDiagnostics(toString(textDocument["uri"]),
+                                    toString(contentChanges[contentChanges.Size() - 1]["text"]));
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
@@ -472,7 +478,7 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    mFileContexts.erase(textDocument["uri"].GetString());
+    mFileContexts.erase(toString(textDocument["uri"]));
 }
 
 void JsonMessageHandler::readNcSettings()
@@ -721,7 +727,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     const int   character    = position["character"].GetInt();
     const auto& textDocument = params["textDocument"];
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = toString(textDocument["uri"]);
 
     std::string               strLine;
     parser::fanuc::macro_map* macroMap{};
@@ -912,7 +918,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    const std::string uri = textDocument["uri"].GetString();
+    const std::string uri = toString(textDocument["uri"]);
 
     PathTimeResult* pathTimeResult{};
 
@@ -1007,7 +1013,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     const auto& start  = range["start"];
     const int   line   = start["line"].GetInt();
     const auto  uri =
-        params.HasMember("data") and params["data"].IsString() ? std::string(params["data"].GetString()) : mCurrentUri;
+        params.HasMember("data") and params["data"].IsString() ? toString(params["data"]) : mCurrentUri;
 
     PathTimeResult* pathTimeResult{};
 
-- 
2.43.0


From 28668e0c0b4ee0510894c22cf354f86adc85d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 61/69] fix: a simple drilling cycle upwards across the zero
 has its real path

---
 parser/fanuc/PathCalculator.cpp | 36 ++++++++-------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index b4fedec..4f9da70 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -455,40 +455,20 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
                 doing something stupid
                 {
                     return std::make_pair(0.,0.); // this probably should be replaced by normal calculation below
-                }
-                else */
-                if (Zpre > 0 && Zgleb < 0)
-                {
-                    auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zpre) + std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
-                else
-                {
-                    auto Cycle_distance_Linear = std::abs(Rparam) - std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) - std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
+                }*/
+                auto Cycle_distance_Linear = std::abs(Rparam - Zgleb);
+                auto Cycle_distance_Rapid  = std::abs(Zpre - Rparam) + std::abs(Zpre - Zgleb);
+                return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
                 /*if(Zpre == Zgleb)
                 {
                     return std::make_pair(0.,0.);
-                }
-                else */
-                if (Zpre > 0 && Zgleb < 0)
-                {
-                    auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) + std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), Cycle_distance_Rapid);
-                }
-                else
-                {
-                    auto Cycle_distance_Linear = std::abs(Rparam) - std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
+                }*/
+                auto Cycle_distance_Linear = std::abs(Rparam - Zgleb);
+                auto Cycle_distance_Rapid  = std::abs(Zpre - Zgleb);
+                return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
         }
     }
-- 
2.43.0


From 2d6a62c375e0bc920ad16114ca8776139f16d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 62/69] fix: words in front of G4 or G68 are not lengths to be
 converted

The time of a dwell and the direction and angle of a rotation may be
written before their code; they were converted as lengths. A macro code
such as G#4 is not a dwell.
---
 parser/fanuc/UnitConverter.cpp | 55 ++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index 0f347cf..545dc3a 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -43,7 +43,7 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
+        if (is_dwell(data))
         {
             ignore_rest = true;
             return;
@@ -65,25 +65,16 @@ public:
                 *data.value = "20";
                 return;
             }
-            else if (val == 68)
+            else if (is_rotation(data))
             {
-                if (data.value2)
-                {
-                    auto val2 = std::stoi(*data.value2);
-                    if (val2 == 2 || val2 == 3 || val2 == 4)
-                    {
-                        was_g68 = true;
-                        return;
-                    }
-                }
-                else
-                {
-                    was_g68 = true;
-                    return;
-                }
+                was_g68 = true;
+                return;
             }
         }
 
+        if (was_dwell && (data.word == "X" || data.word == "U"))
+            return;
+
         if (was_g68)
         {
             auto itor = std::find_if(std::cbegin(gcode68_ignore_params), std::cend(gcode68_ignore_params),
@@ -159,12 +150,42 @@ public:
     {
     }
 
+    // the words of a dwell or of a rotation may stand in front of its code
+    void look_ahead(const std::vector<AttributeVariant>& value)
+    {
+        for (const auto& attr : value)
+        {
+            if (const auto* data = boost::get<DecimalAttributeData>(&attr))
+            {
+                was_dwell = was_dwell || is_dwell(*data);
+                was_g68   = was_g68 || is_rotation(*data);
+            }
+        }
+    }
+
+private:
+    static bool is_dwell(const DecimalAttributeData& data)
+    {
+        return data.word == "G" && !data.macro && data.value && std::stoi(*data.value) == 4;
+    }
+
+    static bool is_rotation(const DecimalAttributeData& data)
+    {
+        if (data.word != "G" || data.macro || !data.value || std::stoi(*data.value) != 68)
+            return false;
+        if (!data.value2)
+            return true;
+        const auto val2 = std::stoi(*data.value2);
+        return val2 == 2 || val2 == 3 || val2 == 4;
+    }
+
 private:
     const ConvWordGrammar&          word_grammar;
     const std::vector<std::string>& words;
     const UnitConversionType        conversion_type;
     bool                            was_first_item{};
     bool                            ignore_rest{};
+    bool                            was_dwell{};
     bool                            was_g68{};
 
     static constexpr std::array<std::string_view, 4> gcode68_ignore_params = {"I", "J", "K", "R"};
@@ -193,6 +214,7 @@ void UnitConverter::mm_to_inch(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_imperial, conv_words_imperial,
                                                 UnitConversionType::metric_to_imperial);
+    unit_converter_visitor.look_ahead(value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
@@ -201,6 +223,7 @@ void UnitConverter::inch_to_mm(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_metric, conv_words_metric,
                                                 UnitConversionType::imperial_to_metric);
+    unit_converter_visitor.look_ahead(value);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
-- 
2.43.0


From 26351e045677b84e403c2f69b13b45e513212014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 63/69] fix: axes rotation leaves G#17, G#2 and G17.1 alone

The digits of G#17 are the number of a variable, not a plane.
---
 parser/fanuc/AxesRotator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index f5444b5..fa968f9 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -192,12 +192,14 @@ public:
         }
         else if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro) // the digits of G#17 are those of a variable
                 return;
 
             auto&      val    = *data.value;
             const auto zeroes = std::min(val.find_first_not_of('0'), val.size());
             const auto code   = val.substr(zeroes);
+            if (data.value2 && code.size() == 2) // G17.1 is not a plane
+                return;
             if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
                 return;
 
-- 
2.43.0


From cf7a3ca3055a4c95e69507ab0c203b6d3795c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 64/69] fix: a G73, G74 or G76 cycle without spindle rotation
 is reported too

They cut like G81 to G89 do.
---
 parser/fanuc/RotationVerifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/RotationVerifier.cpp b/parser/fanuc/RotationVerifier.cpp
index c19604f..d222154 100644
--- a/parser/fanuc/RotationVerifier.cpp
+++ b/parser/fanuc/RotationVerifier.cpp
@@ -48,7 +48,7 @@ void RotationVerifierVisitor::operator()(const DecimalAttributeData& data)
     else if (!cnc_default_values->operator_turns_on_rotation && data.word == "G" && data.value)
     {
         int32_t value = std::stoi(*data.value);
-        if (value == 1 || (value >= 81 && value <= 89))
+        if (value == 1 || value == 73 || value == 74 || value == 76 || (value >= 81 && value <= 89))
         {
             G = true;
         }
-- 
2.43.0


From 82be73e065fefedb40fd8b34c7ab7ed164cce88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 65/69] fix: other codes beside G0 or G1 do not hide them from
 the file splitter

With 'rapid traverse cancels the cycle' set, G90 behind G0 in a block
took the place of the active motion, so that neither this block nor the
following ones counted as rapid traverse.
---
 parser/fanuc/FileSplitter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..79c81d7 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -44,14 +44,16 @@ public:
             if ((val >= 0 && val <= 3))
             {
                 active_g = val;
+                if ((val == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
+                    (val == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+                    drill_cycle = false;
             }
             else if (is_drill_cycle(val) || is_drill_cycle_qparam(val))
             {
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
                 active_g    = val;
                 drill_cycle = false;
-- 
2.43.0


From 6286ad136223b6285452ea250484354f4aed48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:09 +0000
Subject: [PATCH 66/69] fix: which arcs are turns of a helix, and with which
 radius

Arcs after a helix and another motion, or without a change of height,
were still taken for turns of it; a helix given by its radius was
measured with the last centre instead, and a quarter turn to the origin,
or in incremental programming by the very coordinates of its start, was
taken for a full one.
---
 parser/fanuc/AttributesPathCalculator.cpp | 32 +++++++++++++++++------
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b56845d..f2b6c61 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -461,6 +461,7 @@ void AttributesPathCalculator::reset()
     active_g9697     = {};
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
+    helix_with_radius = false;
     active_auto_rapid_traverse_after_tool_exchange = false;
     active_t.clear();
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
@@ -687,6 +688,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
     const auto lathe_non_diameter = lathe_programming && !kinematics.diameter_programming_2x;
 
+    if (current_g != 2 && current_g != 3)
+        active_helix = EHelixType::None; // the arcs after another motion do not go on with it
+
     if (current_g == 0 || current_g == 1)
     {
         // if(move_to_tool_exchange_point)
@@ -947,8 +951,19 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         const auto y = get_optional_value(values, axis2);
         const auto z = get_optional_value(values, axis3);
 
-        bool calculate_arc                  = true;
-        bool first_helix_quarter_incr_block = false;
+        // an arc without a change of height is not a turn of a helix
+        const bool incremental   = current_g9091 == EProgrammingType::Incremental;
+        const bool height_change = z && (incremental ? *z != 0. : !z_prev || *z != *z_prev);
+        if (!height_change)
+            active_helix = EHelixType::None;
+
+        // a turn without a radius or centre of its own has the one given last
+        if (r)
+            helix_with_radius = true;
+        else if (i || j)
+            helix_with_radius = false;
+
+        bool calculate_arc = true;
 
         if (q || l)
         {
@@ -974,18 +989,17 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             else
                 path_result.work_motion = gfunc_helix_archimedes_l(*i, *j, *l);
         }
-        else if (active_helix == EHelixType::None && x && y && z && ((i && j && k) || r))
+        else if (active_helix == EHelixType::None && x && y && height_change && ((i && j && k) || r))
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if ((*x == *x_prev && *y == *y_prev) || (*x == 0. && *y == 0.))
+            if (incremental ? *x == 0. && *y == 0. : *x == *x_prev && *y == *y_prev)
             {
                 active_helix = EHelixType::Full;
             }
             else
             {
-                active_helix                   = EHelixType::Quarter;
-                first_helix_quarter_incr_block = true;
+                active_helix = EHelixType::Quarter;
             }
         }
 
@@ -1017,6 +1031,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
+            if (helix_with_radius && r)
+                i = j = std::nullopt;
+
             if (current_g9091 == EProgrammingType::Incremental)
             {
                 if (active_helix == EHelixType::Full)
@@ -1039,9 +1056,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && i && j))
+                    if (x && y && *x != 0. && *y != 0.)
                     {
-                        first_helix_quarter_incr_block = false;
                         if (i && j)
                             path_result.work_motion = gfunc_helix_quarter_incr(z.value_or(0.), *i, *j);
                         else
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 6bfbb4e..d35b00a 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -97,6 +97,7 @@ private:
     EConstantSurfaceSpeedControl  active_g9697{};
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
+    bool                          helix_with_radius{};
     std::string                   active_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
 #ifdef _MSC_VER
-- 
2.43.0


From 66523c0994ca9ea1b7afe651ee79c3b1c2901bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:14 +0000
Subject: [PATCH 67/69] fix: turns of a helix are recognised behind sums of
 increments

Positions reached by incremental blocks differ from the written ones by
rounding; a full turn programmed absolutely was then taken for a plain
arc.
---
 parser/fanuc/AttributesPathCalculator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index f2b6c61..e87ef8d 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -952,8 +952,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         const auto z = get_optional_value(values, axis3);
 
         // an arc without a change of height is not a turn of a helix
+        const auto same          = [](double a, double b) { return std::abs(a - b) < 1e-6; }; // sums of increments
         const bool incremental   = current_g9091 == EProgrammingType::Incremental;
-        const bool height_change = z && (incremental ? *z != 0. : !z_prev || *z != *z_prev);
+        const bool height_change = z && (incremental ? *z != 0. : !z_prev || !same(*z, *z_prev));
         if (!height_change)
             active_helix = EHelixType::None;
 
@@ -993,7 +994,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if (incremental ? *x == 0. && *y == 0. : *x == *x_prev && *y == *y_prev)
+            if (incremental ? *x == 0. && *y == 0. : same(*x, *x_prev) && same(*y, *y_prev))
             {
                 active_helix = EHelixType::Full;
             }
@@ -1079,7 +1080,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 const auto z_curr = z ? *z : *z_prev;
                 if (active_helix == EHelixType::Full)
                 {
-                    if (*x_prev == x_curr && *y_prev == y_curr)
+                    if (same(*x_prev, x_curr) && same(*y_prev, y_curr))
                     {
                         if (i && j)
                             path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
@@ -1097,7 +1098,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
+                    if (!same(*x_prev, x_curr) && !same(*y_prev, y_curr) && height_change)
                     {
                         if (i && j)
                             path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
-- 
2.43.0


From e23f3bcc9a7c38ff77a2b1edcaff0941deef8f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 68/69] fix: a grammar file with an absurdly long word
 overflowed the stack

The symbol tables of the parsers are trees as deep as their longest word and
are removed by recursion; such a file is reported as unusable now.
---
 nclangsrv/WordGrammarReader.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/nclangsrv/WordGrammarReader.cpp b/nclangsrv/WordGrammarReader.cpp
index 0d1f540..52b66a7 100644
--- a/nclangsrv/WordGrammarReader.cpp
+++ b/nclangsrv/WordGrammarReader.cpp
@@ -2,6 +2,8 @@
 
 #include "WordGrammarReader.h"
 
+#include <stdexcept>
+
 #define BOOST_BIND_GLOBAL_PLACEHOLDERS
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
@@ -19,11 +21,21 @@ namespace nclangsrv {
 
 namespace {
 
+// The symbols of the parsers are trees as deep as the longest word, removed by recursion
+void verifyWordLength(const std::string& word)
+{
+    constexpr size_t MAX_LENGTH = 256;
+
+    if (word.size() > MAX_LENGTH)
+        throw std::length_error("too long word in the grammar");
+}
+
 void readGrammar(pt::ptree& root, const std::string& unit, fanuc::word_map& word_grammar_map)
 {
 
     for (const auto& [word, grammar] : root.get_child(unit))
     {
+        verifyWordLength(word);
         word_grammar_map[word] = {grammar.get<decltype(fanuc::WordGrammar::word)>("word"),
                                   grammar.get<decltype(fanuc::WordGrammar::range_from)>("range_from"),
                                   grammar.get<decltype(fanuc::WordGrammar::range_to)>("range_to"),
@@ -59,7 +71,10 @@ bool WordGrammarReader::read()
 
         mOperations.clear();
         for (const auto& [_, op] : root.get_child("operations"))
+        {
             mOperations.push_back(op.get_value<std::string>());
+            verifyWordLength(mOperations.back());
+        }
     }
     catch (const pt::json_parser_error& e)
     {
-- 
2.43.0


From bdf82e42c56e437a21aaec887e475a4e3b480d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 69/69] fix: a lens with an infinite time cast it to an integer

---
 nclangsrv/NCParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 6857478..cd3e068 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -126,6 +126,13 @@ std::string formatTime(double doubleSeconds)
     constexpr size_t BUFFER_SIZE = 32;
     static char      buffer[BUFFER_SIZE];
 
+    // too long for milliseconds (e.g. with an extremely slow feed in the settings)
+    if (!(std::abs(doubleSeconds) < 1e15))
+    {
+        std::snprintf(buffer, BUFFER_SIZE, "%g", doubleSeconds);
+        return std::string(buffer);
+    }
+
     int64_t msInt  = static_cast<int64_t>(std::round(doubleSeconds * 1000.0));
     int64_t absInt = std::abs(msInt);
 
-- 
2.43.0

