-------------------------------- MODULE Http ---------------------------------
(* The vocabulary of HTTP: versions, methods, statuses and what each is called
   in the library.  RFC 9110 and the IANA registries, not the code.          *)
EXTENDS Integers, Sequences, FiniteSets
Versions == << [text |-> "unknown", num |-> 11], [text |-> "0.9", num |-> 9], [text |-> "1.0", num |-> 10],
               [text |-> "1.1", num |-> 11], [text |-> "2.0", num |-> 20], [text |-> "3.0", num |-> 30] >>
Known == 2..6
\* an unknown version is sent as 1.1
VerOf(n) == IF \E i \in Known : Versions[i].num = n THEN CHOOSE i \in Known : Versions[i].num = n ELSE 1
Class(n) == IF n \in 100..599 THEN n \div 100 ELSE 0
Factories == <<
 <<"continue_", 100>>, <<"switching_protocols", 101>>, <<"processing", 102>>, <<"early_hints", 103>>,
 <<"ok", 200>>, <<"created", 201>>, <<"accepted", 202>>, <<"non_authoritative_information", 203>>, <<"no_content", 204>>,
 <<"reset_content", 205>>, <<"partial_content", 206>>, <<"multi_status", 207>>, <<"already_reported", 208>>, <<"im_used", 226>>,
 <<"multiple_choices", 300>>, <<"moved_permanently", 301>>, <<"found", 302>>, <<"see_other", 303>>, <<"not_modified", 304>>,
 <<"use_proxy", 305>>, <<"temporary_redirect", 307>>, <<"permanent_redirect", 308>>,
 <<"bad_request", 400>>, <<"unauthorized", 401>>, <<"payment_required", 402>>, <<"forbidden", 403>>, <<"not_found", 404>>,
 <<"method_not_allowed", 405>>, <<"not_acceptable", 406>>, <<"proxy_authentication_required", 407>>, <<"request_timeout", 408>>,
 <<"conflict", 409>>, <<"gone", 410>>, <<"length_required", 411>>, <<"precondition_failed", 412>>, <<"payload_too_large", 413>>,
 <<"uri_too_long", 414>>, <<"unsupported_media_type", 415>>, <<"range_not_satisfiable", 416>>, <<"expectation_failed", 417>>,
 <<"misdirected_request", 421>>, <<"unprocessable_entity", 422>>, <<"locked", 423>>, <<"failed_dependency", 424>>, <<"too_early", 425>>,
 <<"upgrade_required", 426>>, <<"precondition_required", 428>>, <<"too_many_requests", 429>>,
 <<"request_header_fields_too_large", 431>>, <<"unavailable_for_legal_reasons", 451>>,
 <<"internal_server_error", 500>>, <<"not_implemented", 501>>, <<"bad_gateway", 502>>, <<"service_unavailable", 503>>,
 <<"gateway_timeout", 504>>, <<"http_version_not_supported", 505>>, <<"variant_also_negotiates", 506>>,
 <<"insufficient_storage", 507>>, <<"loop_detected", 508>>, <<"not_extended", 510>>, <<"network_authentication_required", 511>> >>
\* route and test_request factories, and the methods they stand for
Named == << <<"get", "GET">>, <<"post", "POST">>, <<"put", "PUT">>, <<"patch", "PATCH">>, <<"delete_", "DELETE">>, <<"head", "HEAD">>, <<"options", "OPTIONS">> >>
Methods == {"DELETE", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS", "TRACE", "COPY", "LOCK", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH",
            "SEARCH", "UNLOCK", "BIND", "REBIND", "UNBIND", "ACL", "REPORT", "MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY",
            "SUBSCRIBE", "UNSUBSCRIBE", "PATCH", "PURGE", "MKCALENDAR", "LINK", "UNLINK"}
RouteOf(m) == IF \E i \in DOMAIN Named : Named[i][2] = m THEN Named[CHOOSE i \in DOMAIN Named : Named[i][2] = m][1] ELSE "none"
ASSUME \A i \in DOMAIN Factories : \A j \in DOMAIN Factories : i # j => Factories[i][1] # Factories[j][1] /\ Factories[i][2] < Factories[IF i < j THEN j ELSE i][2] + 1
ASSUME Cardinality({Factories[i][2] : i \in DOMAIN Factories}) = Len(Factories)
ASSUME Cardinality(Methods) = 33 /\ \A i \in DOMAIN Named : Named[i][2] \in Methods
=============================================================================
