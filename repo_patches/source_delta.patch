From f5de0f834293ae8aac8fe9cbbe60e1a879ad4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 01/32] fix: do not carry the structural delegation check over
 to later jobs

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..15b3b10 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -221,6 +221,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     for (auto &property : user_job["Properties"]) {
         string name = property["PropertyName"];
@@ -384,6 +385,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     current_job_.types_req.set(RRType::NS);
 
-- 
2.43.0


From f9da616685310fd48f33dbec6d8d0cc7436ac5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 02/32] fix: report zero TTL only for records of the requested
 types

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..b90a55c 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -218,7 +218,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From 8332db7e4478b2e83f5d97c07cb39f301d779a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 03/32] fix: ResponseValue does not end at a CNAME that only
 another property asked for

---
 src/properties.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/properties.cpp b/src/properties.cpp
index b90a55c..07ffb51 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -96,6 +96,10 @@ void interpretation::Graph::Properties::CheckResponseValue(
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
                 std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
                 set<string> rdatas;
+                if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && !types_requested[RRType::CNAME]) {
+                    // CNAME was requested by another property only, the execution goes on for these types.
+                    continue;
+                }
                 for (auto rr : std::get<2>(graph[vd].answer.get()[0])) {
                     if (types_requested[rr.get_type()] == 1) {
                         rdatas.insert(rr.get_rdata());
-- 
2.43.0


From 6e9e700d4f798caabe780bd8dcb4095c2298a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 04/32] fix: compare only the name servers' addresses as glue
 in DelegationConsistency

---
 src/properties.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 07ffb51..756a077 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -22,13 +22,21 @@ void interpretation::Graph::Properties::PrettyPrintResponseValue(
 tuple<vector<ResourceRecord>, vector<ResourceRecord>> interpretation::Graph::Properties::GetNSGlueRecords(
     const vector<ResourceRecord> &records)
 {
-    // From the input set of records, return the NS records and IP records
+    // From the input set of records, return the NS records and the IP records of those name servers. The input may
+    // also have other IP records as the job can request them for the same domain name.
     vector<ResourceRecord> nsRecords;
     vector<ResourceRecord> glueRecords;
+    set<string> nameServers;
     for (auto r : records) {
-        if (r.get_type() == RRType::NS)
+        if (r.get_type() == RRType::NS) {
             nsRecords.push_back(r);
-        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
+            nameServers.insert(r.get_rdata());
+        }
+    }
+    for (auto r : records) {
+        if ((r.get_type() == RRType::A || r.get_type() == RRType::AAAA) &&
+            nameServers.count(LabelUtils::LabelsToString(r.get_name())) &&
+            std::find(glueRecords.begin(), glueRecords.end(), r) == glueRecords.end())
             glueRecords.push_back(r);
     }
     return std::make_tuple(nsRecords, glueRecords);
-- 
2.43.0


From 1e7a077b15e92b357506b3af6ffb626cff633401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 05/32] fix: ResponseConsistency does not compare a followed
 CNAME with its target's records

---
 src/properties.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 756a077..62afa60 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -162,10 +162,11 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
+                    if (typesReq[RRType::CNAME] && graph[vd].query.rrTypes[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
-                    }
-                    if (!response) {
+                    } else if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // CNAME was requested by another property only, the execution goes on for these types.
+                    } else if (!response) {
                         response = answer;
                     } else {
                         CommonSymDiff diff =
-- 
2.43.0


From debdeaaddc39e722c5edec94a03f31b259fee895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 06/32] fix: ResponseValue compares the expected values
 ignoring case like the rdata

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 15b3b10..94a812b 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -253,6 +253,8 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                // The rdata of all the records is in lower case
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 0c0431e607f0c2822b88166eeac7e89e5d27e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 07/32] fix: refused DS records no longer abort the run

---
 src/resource-record.cpp | 4 +---
 src/utils.cpp           | 3 ++-
 src/zone-graph.cpp      | 8 +++++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/resource-record.cpp b/src/resource-record.cpp
index 8dbed6c..1b92769 100644
--- a/src/resource-record.cpp
+++ b/src/resource-record.cpp
@@ -24,9 +24,7 @@ ostream &operator<<(ostream &os, const ResourceRecord &rr)
 
 string ResourceRecord::toString()
 {
-    std::bitset<RRType::N> rrTypes;
-    rrTypes.set(type_);
-    return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypesToString(rrTypes) + "   " + rdata_.get();
+    return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypeToString(type_) + "   " + rdata_.get();
 }
 
 vector<NodeLabel> ResourceRecord::get_name() const
diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..ebb131a 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -136,7 +136,8 @@ string type_to_string[] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
 
 string TypeUtils::TypeToString(RRType type)
 {
-    return type_to_string[type];
+    // DS is the only type that is parsed without having its own RRType
+    return type == RRType::N ? "DS" : type_to_string[type];
 }
 
 string TypeUtils::TypesToString(std::bitset<RRType::N> rrTypes)
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..6bdf0f9 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -271,7 +271,9 @@ std::bitset<RRType::N> zone::Graph::GetNodeRRTypes(const vector<ResourceRecord>
 {
     std::bitset<RRType::N> rrTypes;
     for (auto &record : rrs) {
-        rrTypes[record.get_type()] = 1;
+        if (record.get_type() != RRType::N) {
+            rrTypes[record.get_type()] = 1;
+        }
     }
     return rrTypes;
 }
@@ -300,7 +302,7 @@ bool zone::Graph::WildcardMatch(
                     }
                     return true; // If CNAME then other records would be ignored.
                 }
-                if (query.rrTypes[record.get_type()] == 1) {
+                if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                     matchingRRs.push_back(record);
                     queryTypesFound.set(record.get_type());
                 }
@@ -400,7 +402,7 @@ boost::optional<vector<zone::LookUpAnswer>> zone::Graph::QueryLookUpAtZone(const
         for (auto &record : (*this)[closest_encloser].rrs) {
             if (record.get_type() == RRType::NS) {
                 ns_records.push_back(record);
-            } else if (query.rrTypes[record.get_type()] == 1) {
+            } else if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                 query_types_found.set(record.get_type());
                 matching_rrs.push_back(record);
             }
-- 
2.43.0


From 20c6691785a6f766cbd7eabc0785fc22ff769d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 08/32] fix: an owner name that reads like a record type is an
 owner name

---
 src/zone-file-parser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..4218056 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -335,19 +335,17 @@ struct Parser {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
                                   "AAAA", "SRV", "DNAME", "RRSIG", "NSEC", "DS",  "SPF"};
 
-        int index = -1;
-        int i = 0;
-        for (auto &field : current_record) {
-            string f(field);
+        // The first field is the owner name (empty if it is not given) even if it reads like a type
+        for (int i = 1; i < current_record.size(); i++) {
+            string f(current_record[i]);
             if (f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
                 }
             }
-            i++;
         }
-        return index;
+        return -1;
     }
 
     inline bool isInteger(const std::string &s) const
-- 
2.43.0


From fdd5faa48dcba9a005b69418e2b21f102f1cf656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 09/32] fix: resolve '@' in record data, relative origins and
 names relative to the root

---
 src/zone-file-parser.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 4218056..d3dbb9d 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -97,7 +97,7 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
-                    relative_domain_suffix = current_record[1];
+                    relative_domain_suffix = MakeAbsolute(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
@@ -195,27 +195,15 @@ struct Parser {
                     }
                 }
                 if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
+                    name = MakeAbsolute(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
-                        rdata = rdata + "." + relative_domain_suffix;
-                    }
+                    // MX data has a preference before the name
+                    auto name_start = rdata.find_last_of(' ') + 1;
+                    rdata = rdata.substr(0, name_start) +
+                            MakeAbsolute(rdata.substr(name_start), relative_domain_suffix);
                 }
                 boost::to_lower(rdata);
                 boost::to_lower(name);
@@ -348,6 +336,17 @@ struct Parser {
         return -1;
     }
 
+    // The absolute form of a domain name that may be relative to the given origin
+    static string MakeAbsolute(const string &name, const string &origin)
+    {
+        if (boost::algorithm::ends_with(name, ".")) {
+            return name;
+        } else if (origin.empty() || origin == ".") {
+            return name + ".";
+        }
+        return (name == "@" ? "" : name + ".") + MakeAbsolute(origin, "");
+    }
+
     inline bool isInteger(const std::string &s) const
     {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
@@ -391,7 +390,7 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
     // mutable state that will be updated by the parser.
     size_t l = 0;
     int parenCount = 0;
-    string relative_domain = origin;
+    string relative_domain = origin.empty() ? origin : Parser::MakeAbsolute(origin, "");
     ResourceRecord defaultValues("", "", 0, 0, "");
     vector<string> currentRecord;
 
-- 
2.43.0


From 0b1fffda352b51791bc2f98711349c861737d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 10/32] fix: read the last record of a zone file without a
 final newline

---
 src/zone-file-parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d3dbb9d..0c5c25e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -382,6 +382,10 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    if (!str.empty() && str.back() != '\n') {
+        // The records are processed at the end of a line
+        str += "\n";
+    }
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From c681f5354ac71aa5d38d544072439f8b37b5108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 11/32] fix: skip $ORIGIN and $TTL entries that have no value

---
 src/zone-file-parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 0c5c25e..16df4a1 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -95,6 +95,15 @@ struct Parser {
         case ID_EOL:
             ++l;
             if (paren_count == 0 && current_record.size() > 0) {
+                // Control entry without the required argument
+                if (current_record.size() == 1 &&
+                    (current_record[0].compare("$ORIGIN") == 0 || current_record[0].compare("$TTL") == 0)) {
+                    Logger->warn(fmt::format(
+                        "zone-file-parser.cpp (Parser()) - {} without a value at line {} in file {}",
+                        current_record[0], l, mc.file_name));
+                    current_record.clear();
+                    return true;
+                }
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
                     relative_domain_suffix = MakeAbsolute(current_record[1], relative_domain_suffix);
-- 
2.43.0


From bb785cdda7d5fdfb024c5e84a746a196bfd7b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 12/32] fix: records inherit the owner of a preceding record
 that is not handled

---
 src/zone-file-parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 16df4a1..db03737 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -130,7 +130,6 @@ struct Parser {
                 if (current_record[0].compare("@") == 0) {
                     if (relative_domain_suffix.length() > 0) {
                         current_record[0] = relative_domain_suffix;
-                        default_values.set_name(relative_domain_suffix);
                     } else {
                         Logger->error(fmt::format(
                             "zone-file-parser.cpp (Parser()) - Encountered @ symbol but relative "
@@ -140,6 +139,11 @@ struct Parser {
                     }
                 }
 
+                // The following records without an owner name get this one even if this record is not handled
+                if (current_record[0].size() > 0) {
+                    default_values.set_name(MakeAbsolute(current_record[0], relative_domain_suffix));
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -170,7 +174,6 @@ struct Parser {
                         if (i == 0) {
                             if (field.size() > 0) {
                                 name = field;
-                                default_values.set_name(field);
                             }
                         } else if (boost::iequals(field, "CH")) {
                             Logger->warn(fmt::format(
@@ -205,7 +208,6 @@ struct Parser {
                 }
                 if (!boost::algorithm::ends_with(name, ".")) {
                     name = MakeAbsolute(name, relative_domain_suffix);
-                    default_values.set_name(name);
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-- 
2.43.0


From bd8e9e6881559bca8e610193864ff3b9290f5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 13/32] fix: records without a TTL get the $TTL value or else
 the last stated TTL

---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index db03737..1aeca7d 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -15,6 +15,7 @@ struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
     bool lint = false;
+    bool found_TTL = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
 };
@@ -121,6 +122,7 @@ struct Parser {
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
                     default_values.set_ttl(std::stoi(current_record[1]));
+                    mc.found_TTL = true;
                     current_record.clear();
                     return true;
                 }
@@ -184,7 +186,8 @@ struct Parser {
                             class_ = 1;
                         } else if (isInteger(field)) {
                             ttl = std::stoi(field);
-                            if (default_values.get_ttl() == 0)
+                            // Without a $TTL entry the last stated TTL is the default one
+                            if (!mc.found_TTL)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From 1fbd4d364213f38d325924ba36208176bfdcd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 14/32] fix: an escaped quote does not end a quoted string

---
 src/zone-file-parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 1aeca7d..0266a77 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -34,7 +34,7 @@ enum TokenIds {
 template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
-        this->self.add("\\\"[^\\\"]*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
+        this->self.add("\\\"([^\\\"\\\\]|\\\\.)*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
             "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
-- 
2.43.0


From 118fb236679c58d576b505e95ba345734a570ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 15/32] fix: accept the zone file of the root zone

---
 src/label-graph.cpp | 2 +-
 src/zone-graph.cpp  | 5 +++--
 src/zone-graph.h    | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..de3323f 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 6bdf0f9..8154d06 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -127,6 +127,7 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
     (*this)[node].rrs.push_back(record);
     if (record.get_type() == RRType::SOA) {
         origin_ = record.get_name();
+        has_soa_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !has_soa_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!has_soa_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..b794c2c 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -46,6 +46,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
     using LabelToVertex = boost::unordered_map<NodeLabel, VertexDescriptor>;
 
     int id_;
+    bool has_soa_ = false;
     vector<NodeLabel> origin_;
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
-- 
2.43.0


From f4406b414020f098574440f3a794522054207734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 16/32] fix: RRSIG and NSEC records may exist alongside a CNAME
 record

---
 src/zone-graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 8154d06..cb1a87d 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -120,7 +120,10 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
             if (record.get_type() == RRType::DNAME) {
                 return {RRAddCode::DNAME_MULTIPLE, node};
             }
-        } else if (rr.get_type() == RRType::CNAME || record.get_type() == RRType::CNAME) {
+        } else if (
+            (rr.get_type() == RRType::CNAME && record.get_type() != RRType::RRSIG &&
+             record.get_type() != RRType::NSEC) ||
+            (record.get_type() == RRType::CNAME && rr.get_type() != RRType::RRSIG && rr.get_type() != RRType::NSEC)) {
             return {RRAddCode::CNAME_OTHER, node};
         }
     }
-- 
2.43.0


From a9bbcf1bcc31362bd03bd81b7ee189f60138603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 17/32] fix: domain names may be as long as 255 octets

---
 src/label-graph.cpp | 8 ++++++--
 src/node-label.h    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index de3323f..faa13a6 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -465,7 +465,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len > kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -487,7 +487,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength) {
         return;
     }
     (*this)[start].len = static_cast<int16_t>(nodeLen);
@@ -516,6 +516,10 @@ void label::Graph::SubDomainECGeneration(
         // EC for the node if the node is not skipped.
         NodeEC(name, current_job);
     }
+    if (nodeLen + 2 > kMaxDomainLength) {
+        // No child has a valid name.
+        return;
+    }
     // wildcardNode is useful when we want to generate only positive queries and avoid the negations.
     if (wildcard_node) {
         WildcardChildEC(children_labels, name, static_cast<int>(name.size()), current_job);
diff --git a/src/node-label.h b/src/node-label.h
index 3b4577e..6ceb5e8 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -28,7 +28,7 @@ using json = nlohmann::json;
 
 #define kHashMapThreshold 500
 #define kMaxLabelLength 63
-#define kMaxDomainLength 253
+#define kMaxDomainLength 254 // without the root label
 
 struct Empty {
 };
-- 
2.43.0


From e8de99ef7245fad6c9c745a9f8e3ee2c67a2e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 18/32] fix: equivalence classes are lost when closest
 enclosers share label graph nodes

---
 src/label-graph.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index faa13a6..d06431c 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -587,22 +587,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 vector<NodeLabel> parent_domain_name = labels;
                 if (parent_domain_name.size())
                     parent_domain_name.pop_back();
-                vector<std::thread> ECproducers;
                 if (current_job.ec_queue.size_approx() != 0) {
                     Logger->warn(fmt::format(
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
-                // EC producer threads
+                // The generation marks the vertices on the current path, so one encloser at a time
                 for (auto &encloser : closest_enclosers) {
-                    ECproducers.push_back(thread([&]() {
-                        SubDomainECGeneration(
-                            encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
-                    }));
-                }
-                for (auto &t : ECproducers) {
-                    t.join();
+                    SubDomainECGeneration(
+                        encloser.first, parent_domain_name, false, current_job, context,
+                        current_job.check_structural_delegations);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From ca5cdd116f3213d107c8c812e04d2a301b8aacb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 19/32] fix: exit with a failure status after an exception

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 97a5c24cf47227938c05f09ce8009f5d6d24835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 20/32] fix: write reports with record data that is not valid
 UTF-8

---
 src/driver.cpp | 3 ++-
 src/utils.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 94a812b..3d95c3b 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -460,7 +460,8 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        // The record data of a violation may not be valid UTF-8
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index ebb131a..7ff8d70 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -206,7 +206,7 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From 167b230af5d6c5c550fc39500f73dffb4375a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 21/32] fix: fail when the output file can not be written

---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 3d95c3b..6c3ebda 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -466,6 +466,10 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        Logger->critical(fmt::format("driver.cpp (WriteViolationsToFile) - Unable to write to {}", output_file));
+        exit(EXIT_FAILURE);
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
-- 
2.43.0


From 0279f649879a197811bed36fefe3d4724e796c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 22/32] fix: a record repeated with another TTL is no
 difference between two answers

---
 src/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7ff8d70..790c7ee 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -163,7 +163,12 @@ CommonSymDiff RRUtils::CompareRRs(vector<ResourceRecord> res_a, vector<ResourceR
 {
     // For the given pair of collection of resource records, return the common RR's, RR's present only in A and RR's
     // present only in B.
-    // Assumption: resA and resB has unique records (no two records in either vector are exactly the same)
+    // Records that differ only in their TTL are the same.
+    for (auto *rrs : {&res_a, &res_b}) {
+        for (auto it = rrs->begin(); it != rrs->end();) {
+            it = std::find(rrs->begin(), it, *it) != it ? rrs->erase(it) : it + 1;
+        }
+    }
     vector<ResourceRecord> common;
     auto it = res_a.begin();
     while (it != res_a.end()) {
-- 
2.43.0


From f160c64e32c076cbd4ca83f5e6598f9d69049dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 23/32] fix: ResponseReturned skips all end nodes of the
 non-existent names and only those

---
 src/interpretation-graph.cpp | 1 +
 src/properties.cpp           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..4097c17 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -335,6 +335,7 @@ EC interpretation::Graph::ProcessDname(const ResourceRecord &record, const EC qu
     }
     EC new_query;
     new_query.excluded = query.excluded;
+    new_query.nonExistent = query.nonExistent;
     new_query.rrTypes = query.rrTypes;
     new_query.name = std::move(rdata_labels);
     return new_query;
diff --git a/src/properties.cpp b/src/properties.cpp
index 62afa60..e455cfb 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -56,7 +56,7 @@ void interpretation::Graph::Properties::CheckResponseReturned(
     for (auto vd : end_nodes) {
         // If the EC is for a non-existent node then by default it will not return an answer
         if (graph[vd].query.nonExistent) {
-            return;
+            continue;
         }
         if ((graph[vd].query.rrTypes & types_req).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
-- 
2.43.0


From 9ffeffdb4df6aef747f76255be9aead667c1636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 24/32] fix: report Response Consistency and Zero TTL for the
 query that was checked

---
 src/properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index e455cfb..236c607 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -206,7 +206,7 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
     if (foundDiff) {
         json tmp;
         tmp["Property"] = "Response Consistency";
-        tmp["Query"] = graph[end_nodes[0]].query.ToString();
+        tmp["Query"] = graph[graph.root_].query.ToString();
         json_queue.enqueue(tmp);
     }
 }
@@ -234,7 +234,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                         if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
-                            tmp["Query"] = graph[end_nodes[0]].query.ToString();
+                            tmp["Query"] = graph[graph.root_].query.ToString();
                             tmp["Violation"]["Nameserver"] = graph[vd].ns;
                             tmp["Violation"]["Record"] = r.toString();
                             json_queue.enqueue(tmp);
-- 
2.43.0


From 02a726b9693cf5fecb08ee93a37f895a5120b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 25/32] fix: read relative names in the data of PTR, SRV and
 SOA records

---
 src/zone-file-parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 0266a77..cb5b459 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -213,11 +213,21 @@ struct Parser {
                     name = MakeAbsolute(name, relative_domain_suffix);
                 }
                 // compare returns zero when equal
-                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    // MX data has a preference before the name
+                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX") ||
+                    !type.compare("PTR") || !type.compare("SRV")) {
+                    // MX and SRV data have numbers before the name
                     auto name_start = rdata.find_last_of(' ') + 1;
                     rdata = rdata.substr(0, name_start) +
                             MakeAbsolute(rdata.substr(name_start), relative_domain_suffix);
+                } else if (!type.compare("SOA")) {
+                    // SOA data starts with two names
+                    auto mname_end = rdata.find(' ');
+                    auto rname_end = mname_end == string::npos ? string::npos : rdata.find(' ', mname_end + 1);
+                    if (rname_end != string::npos) {
+                        rdata = MakeAbsolute(rdata.substr(0, mname_end), relative_domain_suffix) + " " +
+                                MakeAbsolute(rdata.substr(mname_end + 1, rname_end - mname_end - 1), relative_domain_suffix) +
+                                rdata.substr(rname_end);
+                    }
                 }
                 boost::to_lower(rdata);
                 boost::to_lower(name);
-- 
2.43.0


From f3ec565fefeba4d224cd15b89d16052cb5e9a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:35 +0000
Subject: [PATCH 26/32] fix: a backslash quotes the next character of a field
 in a zone file

An escaped semicolon, blank or quote ended the field, and an escaped
parenthesis at the end of a field was taken for a parenthesis.
---
 src/zone-file-parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index cb5b459..877ac7c 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -35,7 +35,7 @@ template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
         this->self.add("\\\"([^\\\"\\\\]|\\\\.)*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
-            "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
+            "(\\\\[^\r\n]|[^ ;\t\r\n\\(\\)\\\"\\\\])+",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
 };
-- 
2.43.0


From f7bc221da156e4bae2b3dad38b681070c0ec6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:27 +0000
Subject: [PATCH 27/32] fix: a dot after an escaped backslash separates labels

and a name that ends in an escaped dot is a relative one.
---
 src/utils.cpp            | 26 ++++++++++++++++++--------
 src/utils.h              |  1 +
 src/zone-file-parser.cpp |  4 ++--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 790c7ee..eec3c51 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -1,5 +1,17 @@
 #include "utils.h"
 
+bool LabelUtils::EndsWithSeparator(const string &name)
+{
+    // A dot after a backslash belongs to the label, unless a backslash precedes that backslash
+    bool quoted = false;
+    bool separator = false;
+    for (char c : name) {
+        separator = c == '.' && !quoted;
+        quoted = c == '\\' && !quoted;
+    }
+    return separator;
+}
+
 string LabelUtils::LabelsToString(vector<NodeLabel> domain_name)
 {
     string domain = "";
@@ -55,22 +67,20 @@ vector<NodeLabel> LabelUtils::StringToLabels(string domain_name)
     if (domain_name.length() == 0) {
         return tokens;
     }
-    if (domain_name[domain_name.length() - 1] != '.') {
+    if (!EndsWithSeparator(domain_name)) {
         domain_name += ".";
     }
     // boost::algorithm::split(labels, name, boost::is_any_of(".")); // Avoiding this for the case where . is written
     // with \. and root zone.
     string previous = "";
+    bool quoted = false;
     for (auto it = domain_name.begin(); it < domain_name.end(); ++it) {
-        if (*it == '.' && previous.length() > 0) {
-            if (previous.back() == '\\') {
-                previous += *it;
-            } else {
-                tokens.push_back(std::move(previous));
-                previous = "";
-            }
+        if (*it == '.' && previous.length() > 0 && !quoted) {
+            tokens.push_back(std::move(previous));
+            previous = "";
         } else {
             previous += *it;
+            quoted = *it == '\\' && !quoted;
         }
     }
     std::reverse(tokens.begin(), tokens.end());
diff --git a/src/utils.h b/src/utils.h
index 25b7ff2..d3f53ca 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -8,6 +8,7 @@
 class LabelUtils
 {
   public:
+    static bool EndsWithSeparator(const string &);
     static string LabelsToString(vector<NodeLabel>);
     static string LabelsToString(vector<vector<NodeLabel>>);
     static tuple<bool, string> LengthCheck(vector<NodeLabel>, int);
diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 877ac7c..f2d8e97 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -209,7 +209,7 @@ struct Parser {
                         relative_domain_suffix = name;
                     }
                 }
-                if (!boost::algorithm::ends_with(name, ".")) {
+                if (!LabelUtils::EndsWithSeparator(name)) {
                     name = MakeAbsolute(name, relative_domain_suffix);
                 }
                 // compare returns zero when equal
@@ -363,7 +363,7 @@ struct Parser {
     // The absolute form of a domain name that may be relative to the given origin
     static string MakeAbsolute(const string &name, const string &origin)
     {
-        if (boost::algorithm::ends_with(name, ".")) {
+        if (LabelUtils::EndsWithSeparator(name)) {
             return name;
         } else if (origin.empty() || origin == ".") {
             return name + ".";
-- 
2.43.0


From 890c3f788f6356077433385a029caf1ccce47ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:15 +0000
Subject: [PATCH 28/32] fix: count an escape sequence in a label as one octet

Legal names and labels with escapes were refused as too long.
---
 src/label-graph.cpp |  4 ++--
 src/node-label.cpp  | 13 +++++++++++++
 src/node-label.h    |  1 +
 src/utils.cpp       |  4 ++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index d06431c..b83da40 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -463,7 +463,7 @@ void label::Graph::SubDomainECGeneration(
 {
     size_t len = 0;
     for (NodeLabel &l : parent_domain_name) {
-        len += l.get().length() + 1;
+        len += l.octets() + 1;
     }
     if (len > kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
@@ -485,7 +485,7 @@ void label::Graph::SubDomainECGeneration(
     int16_t beforeLen = (*this)[start].len;
     size_t nodeLen = 0;
     for (NodeLabel &l : name) {
-        nodeLen += l.get().length() + 1;
+        nodeLen += l.octets() + 1;
     }
     if (nodeLen > kMaxDomainLength) {
         return;
diff --git a/src/node-label.cpp b/src/node-label.cpp
index f51bad8..2856251 100644
--- a/src/node-label.cpp
+++ b/src/node-label.cpp
@@ -5,6 +5,19 @@ std::string NodeLabel::get() const
     return n.get();
 }
 
+std::size_t NodeLabel::octets() const
+{
+    // \X and \DDD stand for one octet
+    const std::string &s = n.get();
+    std::size_t count = 0;
+    for (std::size_t i = 0; i < s.size(); i++, count++) {
+        if (s[i] == '\\') {
+            i += i + 3 < s.size() && isdigit(s[i + 1]) && isdigit(s[i + 2]) && isdigit(s[i + 3]) ? 3 : 1;
+        }
+    }
+    return count;
+}
+
 void NodeLabel::set(const std::string s)
 {
     n = s;
diff --git a/src/node-label.h b/src/node-label.h
index 6ceb5e8..6eb409a 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -38,6 +38,7 @@ struct NodeLabel {
     NodeLabel(const std::string s) : n{s} {};
     NodeLabel() : n{""} {};
     std::string get() const;
+    std::size_t octets() const;
     void set(const std::string);
     bool operator==(const NodeLabel &) const;
 
diff --git a/src/utils.cpp b/src/utils.cpp
index eec3c51..32ffb90 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -40,7 +40,7 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
 {
     int length = 0;
     for (NodeLabel &l : domain_labels) {
-        if (l.get().length() > kMaxLabelLength) {
+        if (l.octets() > kMaxLabelLength) {
             if (level == 2) {
                 Logger->warn(fmt::format(
                     "label-graph.cpp (GenerateECs) - Userinput, {}, has a label, {}, exceedeing the valid label length",
@@ -48,7 +48,7 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
             }
             return {false, l.get()};
         }
-        length += l.get().length() + 1;
+        length += l.octets() + 1;
     }
     if (length > kMaxDomainLength) {
         if (level == 2) {
-- 
2.43.0


From 0bb64855ea5a3240927853b0f33f48d27888523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:21 +0000
Subject: [PATCH 29/32] fix: skip entries whose TTL is not a valid one instead
 of aborting

---
 src/zone-file-parser.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index f2d8e97..027bbfd 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -121,8 +121,14 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
-                    mc.found_TTL = true;
+                    if (isTtl(current_record[1])) {
+                        default_values.set_ttl(std::stoi(current_record[1]));
+                        mc.found_TTL = true;
+                    } else {
+                        Logger->warn(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $TTL with an invalid value at line {} in file {}", l,
+                            mc.file_name));
+                    }
                     current_record.clear();
                     return true;
                 }
@@ -184,7 +190,7 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (isInteger(field)) {
+                        } else if (isTtl(field)) {
                             ttl = std::stoi(field);
                             // Without a $TTL entry the last stated TTL is the default one
                             if (!mc.found_TTL)
@@ -371,13 +377,11 @@ struct Parser {
         return (name == "@" ? "" : name + ".") + MakeAbsolute(origin, "");
     }
 
-    inline bool isInteger(const std::string &s) const
+    // A TTL is a number from 0 to 2^31 - 1 (RFC 2181 section 8)
+    inline bool isTtl(const std::string &s) const
     {
-        if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
-            return false;
-        char *p;
-        strtol(s.c_str(), &p, 10);
-        return (*p == 0);
+        return !s.empty() && s.find_first_not_of("0123456789") == string::npos &&
+               strtoull(s.c_str(), NULL, 10) <= 2147483647;
     }
 };
 
-- 
2.43.0


From a3086159b333cf8c4df63390798bd59d02f3f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:21 +0000
Subject: [PATCH 30/32] fix: the TTL of a record of another type is a stated
 one, too

---
 src/zone-file-parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 027bbfd..98a7f75 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -152,6 +152,15 @@ struct Parser {
                     default_values.set_name(MakeAbsolute(current_record[0], relative_domain_suffix));
                 }
 
+                // Without a $TTL entry the last stated TTL is the default one, also if its record is not handled
+                for (int i = 1; i < current_record.size() && !mc.found_TTL; i++) {
+                    if (isTtl(current_record[i])) {
+                        default_values.set_ttl(std::stoi(current_record[i]));
+                    } else if (!boost::iequals(current_record[i], "IN") && !boost::iequals(current_record[i], "CH")) {
+                        break;
+                    }
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -192,9 +201,6 @@ struct Parser {
                             class_ = 1;
                         } else if (isTtl(field)) {
                             ttl = std::stoi(field);
-                            // Without a $TTL entry the last stated TTL is the default one
-                            if (!mc.found_TTL)
-                                default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
                                 "zone-file-parser.cpp (Parser()) - RR at line {} in file {} is "
-- 
2.43.0


From f2aa83057bb0ebe0972cf7cce6dc6ccd56a57947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:21 +0000
Subject: [PATCH 31/32] fix: skip records that have no data

---
 src/zone-file-parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 98a7f75..961a693 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -183,6 +183,12 @@ struct Parser {
                     current_record.clear();
                     return true;
                 }
+                if (typeIndex + 1 == current_record.size()) {
+                    Logger->warn(fmt::format(
+                        "zone-file-parser.cpp (Parser()) - RR without data at line {} in file {}", l, mc.file_name));
+                    current_record.clear();
+                    return true;
+                }
                 for (auto &field : current_record) {
                     if (i > typeIndex) {
                         rdata += field + " ";
-- 
2.43.0


From f93e579b67ef6b571ec2d20f7c38f061d85cdcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:45 +0000
Subject: [PATCH 32/32] fix: control entries in any letter case

---
 src/zone-file-parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 961a693..93eee3e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -98,7 +98,7 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry without the required argument
                 if (current_record.size() == 1 &&
-                    (current_record[0].compare("$ORIGIN") == 0 || current_record[0].compare("$TTL") == 0)) {
+                    (boost::iequals(current_record[0], "$ORIGIN") || boost::iequals(current_record[0], "$TTL"))) {
                     Logger->warn(fmt::format(
                         "zone-file-parser.cpp (Parser()) - {} without a value at line {} in file {}",
                         current_record[0], l, mc.file_name));
@@ -106,21 +106,21 @@ struct Parser {
                     return true;
                 }
                 // Control entry $ORIGIN - Sets the origin for relative domain names
-                if (current_record[0].compare("$ORIGIN") == 0) {
+                if (boost::iequals(current_record[0], "$ORIGIN")) {
                     relative_domain_suffix = MakeAbsolute(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
                 }
                 // Control entry $INCLUDE - Inserts the named file( currently unhandled)
-                if (current_record[0].compare("$INCLUDE") == 0) {
+                if (boost::iequals(current_record[0], "$INCLUDE")) {
                     Logger->error(fmt::format(
                         "zone-file-parser.cpp (Parser()) - Found $INCLUDE entry at line - {} in file - {}", l,
                         mc.file_name));
                     return false;
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
-                if (current_record[0].compare("$TTL") == 0) {
+                if (boost::iequals(current_record[0], "$TTL")) {
                     if (isTtl(current_record[1])) {
                         default_values.set_ttl(std::stoi(current_record[1]));
                         mc.found_TTL = true;
-- 
2.43.0

