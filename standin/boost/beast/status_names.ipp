// (Boost Software License, Version 1.0)
STANDIN_STATUS(continue_, 100, "Continue")
STANDIN_STATUS(switching_protocols, 101, "Switching Protocols")
STANDIN_STATUS(processing, 102, "Processing")
STANDIN_STATUS(early_hints, 103, "Early Hints")
STANDIN_STATUS(ok, 200, "OK")
STANDIN_STATUS(created, 201, "Created")
STANDIN_STATUS(accepted, 202, "Accepted")
STANDIN_STATUS(non_authoritative_information, 203, "Non-Authoritative Information")
STANDIN_STATUS(no_content, 204, "No Content")
STANDIN_STATUS(reset_content, 205, "Reset Content")
STANDIN_STATUS(partial_content, 206, "Partial Content")
STANDIN_STATUS(multi_status, 207, "Multi-Status")
STANDIN_STATUS(already_reported, 208, "Already Reported")
STANDIN_STATUS(im_used, 226, "IM Used")
STANDIN_STATUS(multiple_choices, 300, "Multiple Choices")
STANDIN_STATUS(moved_permanently, 301, "Moved Permanently")
STANDIN_STATUS(found, 302, "Found")
STANDIN_STATUS(see_other, 303, "See Other")
STANDIN_STATUS(not_modified, 304, "Not Modified")
STANDIN_STATUS(use_proxy, 305, "Use Proxy")
STANDIN_STATUS(temporary_redirect, 307, "Temporary Redirect")
STANDIN_STATUS(permanent_redirect, 308, "Permanent Redirect")
STANDIN_STATUS(bad_request, 400, "Bad Request")
STANDIN_STATUS(unauthorized, 401, "Unauthorized")
STANDIN_STATUS(payment_required, 402, "Payment Required")
STANDIN_STATUS(forbidden, 403, "Forbidden")
STANDIN_STATUS(not_found, 404, "Not Found")
STANDIN_STATUS(method_not_allowed, 405, "Method Not Allowed")
STANDIN_STATUS(not_acceptable, 406, "Not Acceptable")
STANDIN_STATUS(proxy_authentication_required, 407, "Proxy Authentication Required")
STANDIN_STATUS(request_timeout, 408, "Request Timeout")
STANDIN_STATUS(conflict, 409, "Conflict")
STANDIN_STATUS(gone, 410, "Gone")
STANDIN_STATUS(length_required, 411, "Length Required")
STANDIN_STATUS(precondition_failed, 412, "Precondition Failed")
STANDIN_STATUS(payload_too_large, 413, "Payload Too Large")
STANDIN_STATUS(uri_too_long, 414, "URI Too Long")
STANDIN_STATUS(unsupported_media_type, 415, "Unsupported Media Type")
STANDIN_STATUS(range_not_satisfiable, 416, "Range Not Satisfiable")
STANDIN_STATUS(expectation_failed, 417, "Expectation Failed")
STANDIN_STATUS(misdirected_request, 421, "Misdirected Request")
STANDIN_STATUS(unprocessable_entity, 422, "Unprocessable Entity")
STANDIN_STATUS(locked, 423, "Locked")
STANDIN_STATUS(failed_dependency, 424, "Failed Dependency")
STANDIN_STATUS(too_early, 425, "Too Early")
STANDIN_STATUS(upgrade_required, 426, "Upgrade Required")
STANDIN_STATUS(precondition_required, 428, "Precondition Required")
STANDIN_STATUS(too_many_requests, 429, "Too Many Requests")
STANDIN_STATUS(request_header_fields_too_large, 431, "Request Header Fields Too Large")
STANDIN_STATUS(connection_closed_without_response, 444, "Connection Closed Without Response")
STANDIN_STATUS(unavailable_for_legal_reasons, 451, "Unavailable For Legal Reasons")
STANDIN_STATUS(client_closed_request, 499, "Client Closed Request")
STANDIN_STATUS(internal_server_error, 500, "Internal Server Error")
STANDIN_STATUS(not_implemented, 501, "Not Implemented")
STANDIN_STATUS(bad_gateway, 502, "Bad Gateway")
STANDIN_STATUS(service_unavailable, 503, "Service Unavailable")
STANDIN_STATUS(gateway_timeout, 504, "Gateway Timeout")
STANDIN_STATUS(http_version_not_supported, 505, "HTTP Version Not Supported")
STANDIN_STATUS(variant_also_negotiates, 506, "Variant Also Negotiates")
STANDIN_STATUS(insufficient_storage, 507, "Insufficient Storage")
STANDIN_STATUS(loop_detected, 508, "Loop Detected")
STANDIN_STATUS(not_extended, 510, "Not Extended")
STANDIN_STATUS(network_authentication_required, 511, "Network Authentication Required")
STANDIN_STATUS(network_connect_timeout_error, 599, "Network Connect Timeout Error")
