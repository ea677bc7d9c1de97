// The registered HTTP field names (IANA), in the order and spelling of Boost.Beast's enumeration.
// (Boost Software License, Version 1.0)
STANDIN_FIELD(unknown, "<unknown-field>")
STANDIN_FIELD(a_im, "A-IM")
STANDIN_FIELD(accept, "Accept")
STANDIN_FIELD(accept_additions, "Accept-Additions")
STANDIN_FIELD(accept_charset, "Accept-Charset")
STANDIN_FIELD(accept_datetime, "Accept-Datetime")
STANDIN_FIELD(accept_encoding, "Accept-Encoding")
STANDIN_FIELD(accept_features, "Accept-Features")
STANDIN_FIELD(accept_language, "Accept-Language")
STANDIN_FIELD(accept_patch, "Accept-Patch")
STANDIN_FIELD(accept_post, "Accept-Post")
STANDIN_FIELD(accept_ranges, "Accept-Ranges")
STANDIN_FIELD(access_control, "Access-Control")
STANDIN_FIELD(access_control_allow_credentials, "Access-Control-Allow-Credentials")
STANDIN_FIELD(access_control_allow_headers, "Access-Control-Allow-Headers")
STANDIN_FIELD(access_control_allow_methods, "Access-Control-Allow-Methods")
STANDIN_FIELD(access_control_allow_origin, "Access-Control-Allow-Origin")
STANDIN_FIELD(access_control_expose_headers, "Access-Control-Expose-Headers")
STANDIN_FIELD(access_control_max_age, "Access-Control-Max-Age")
STANDIN_FIELD(access_control_request_headers, "Access-Control-Request-Headers")
STANDIN_FIELD(access_control_request_method, "Access-Control-Request-Method")
STANDIN_FIELD(age, "Age")
STANDIN_FIELD(allow, "Allow")
STANDIN_FIELD(alpn, "ALPN")
STANDIN_FIELD(also_control, "Also-Control")
STANDIN_FIELD(alt_svc, "Alt-Svc")
STANDIN_FIELD(alt_used, "Alt-Used")
STANDIN_FIELD(alternate_recipient, "Alternate-Recipient")
STANDIN_FIELD(alternates, "Alternates")
STANDIN_FIELD(apparently_to, "Apparently-To")
STANDIN_FIELD(apply_to_redirect_ref, "Apply-To-Redirect-Ref")
STANDIN_FIELD(approved, "Approved")
STANDIN_FIELD(archive, "Archive")
STANDIN_FIELD(archived_at, "Archived-At")
STANDIN_FIELD(article_names, "Article-Names")
STANDIN_FIELD(article_updates, "Article-Updates")
STANDIN_FIELD(authentication_control, "Authentication-Control")
STANDIN_FIELD(authentication_info, "Authentication-Info")
STANDIN_FIELD(authentication_results, "Authentication-Results")
STANDIN_FIELD(authorization, "Authorization")
STANDIN_FIELD(auto_submitted, "Auto-Submitted")
STANDIN_FIELD(autoforwarded, "Autoforwarded")
STANDIN_FIELD(autosubmitted, "Autosubmitted")
STANDIN_FIELD(base, "Base")
STANDIN_FIELD(bcc, "Bcc")
STANDIN_FIELD(body, "Body")
STANDIN_FIELD(c_ext, "C-Ext")
STANDIN_FIELD(c_man, "C-Man")
STANDIN_FIELD(c_opt, "C-Opt")
STANDIN_FIELD(c_pep, "C-PEP")
STANDIN_FIELD(c_pep_info, "C-PEP-Info")
STANDIN_FIELD(cache_control, "Cache-Control")
STANDIN_FIELD(caldav_timezones, "CalDAV-Timezones")
STANDIN_FIELD(cancel_key, "Cancel-Key")
STANDIN_FIELD(cancel_lock, "Cancel-Lock")
STANDIN_FIELD(cc, "Cc")
STANDIN_FIELD(close, "Close")
STANDIN_FIELD(comments, "Comments")
STANDIN_FIELD(compliance, "Compliance")
STANDIN_FIELD(connection, "Connection")
STANDIN_FIELD(content_alternative, "Content-Alternative")
STANDIN_FIELD(content_base, "Content-Base")
STANDIN_FIELD(content_description, "Content-Description")
STANDIN_FIELD(content_disposition, "Content-Disposition")
STANDIN_FIELD(content_duration, "Content-Duration")
STANDIN_FIELD(content_encoding, "Content-Encoding")
STANDIN_FIELD(content_features, "Content-features")
STANDIN_FIELD(content_id, "Content-ID")
STANDIN_FIELD(content_identifier, "Content-Identifier")
STANDIN_FIELD(content_language, "Content-Language")
STANDIN_FIELD(content_length, "Content-Length")
STANDIN_FIELD(content_location, "Content-Location")
STANDIN_FIELD(content_md5, "Content-MD5")
STANDIN_FIELD(content_range, "Content-Range")
STANDIN_FIELD(content_return, "Content-Return")
STANDIN_FIELD(content_script_type, "Content-Script-Type")
STANDIN_FIELD(content_style_type, "Content-Style-Type")
STANDIN_FIELD(content_transfer_encoding, "Content-Transfer-Encoding")
STANDIN_FIELD(content_type, "Content-Type")
STANDIN_FIELD(content_version, "Content-Version")
STANDIN_FIELD(control, "Control")
STANDIN_FIELD(conversion, "Conversion")
STANDIN_FIELD(conversion_with_loss, "Conversion-With-Loss")
STANDIN_FIELD(cookie, "Cookie")
STANDIN_FIELD(cookie2, "Cookie2")
STANDIN_FIELD(cost, "Cost")
STANDIN_FIELD(dasl, "DASL")
STANDIN_FIELD(date, "Date")
STANDIN_FIELD(date_received, "Date-Received")
STANDIN_FIELD(dav, "DAV")
STANDIN_FIELD(default_style, "Default-Style")
STANDIN_FIELD(deferred_delivery, "Deferred-Delivery")
STANDIN_FIELD(delivery_date, "Delivery-Date")
STANDIN_FIELD(delta_base, "Delta-Base")
STANDIN_FIELD(depth, "Depth")
STANDIN_FIELD(derived_from, "Derived-From")
STANDIN_FIELD(destination, "Destination")
STANDIN_FIELD(differential_id, "Differential-ID")
STANDIN_FIELD(digest, "Digest")
STANDIN_FIELD(discarded_x400_ipms_extensions, "Discarded-X400-IPMS-Extensions")
STANDIN_FIELD(discarded_x400_mts_extensions, "Discarded-X400-MTS-Extensions")
STANDIN_FIELD(disclose_recipients, "Disclose-Recipients")
STANDIN_FIELD(disposition_notification_options, "Disposition-Notification-Options")
STANDIN_FIELD(disposition_notification_to, "Disposition-Notification-To")
STANDIN_FIELD(distribution, "Distribution")
STANDIN_FIELD(dkim_signature, "DKIM-Signature")
STANDIN_FIELD(dl_expansion_history, "DL-Expansion-History")
STANDIN_FIELD(downgraded_bcc, "Downgraded-Bcc")
STANDIN_FIELD(downgraded_cc, "Downgraded-Cc")
STANDIN_FIELD(downgraded_disposition_notification_to, "Downgraded-Disposition-Notification-To")
STANDIN_FIELD(downgraded_final_recipient, "Downgraded-Final-Recipient")
STANDIN_FIELD(downgraded_from, "Downgraded-From")
STANDIN_FIELD(downgraded_in_reply_to, "Downgraded-In-Reply-To")
STANDIN_FIELD(downgraded_mail_from, "Downgraded-Mail-From")
STANDIN_FIELD(downgraded_message_id, "Downgraded-Message-Id")
STANDIN_FIELD(downgraded_original_recipient, "Downgraded-Original-Recipient")
STANDIN_FIELD(downgraded_rcpt_to, "Downgraded-Rcpt-To")
STANDIN_FIELD(downgraded_references, "Downgraded-References")
STANDIN_FIELD(downgraded_reply_to, "Downgraded-Reply-To")
STANDIN_FIELD(downgraded_resent_bcc, "Downgraded-Resent-Bcc")
STANDIN_FIELD(downgraded_resent_cc, "Downgraded-Resent-Cc")
STANDIN_FIELD(downgraded_resent_from, "Downgraded-Resent-From")
STANDIN_FIELD(downgraded_resent_reply_to, "Downgraded-Resent-Reply-To")
STANDIN_FIELD(downgraded_resent_sender, "Downgraded-Resent-Sender")
STANDIN_FIELD(downgraded_resent_to, "Downgraded-Resent-To")
STANDIN_FIELD(downgraded_return_path, "Downgraded-Return-Path")
STANDIN_FIELD(downgraded_sender, "Downgraded-Sender")
STANDIN_FIELD(downgraded_to, "Downgraded-To")
STANDIN_FIELD(ediint_features, "EDIINT-Features")
STANDIN_FIELD(eesst_version, "Eesst-Version")
STANDIN_FIELD(encoding, "Encoding")
STANDIN_FIELD(encrypted, "Encrypted")
STANDIN_FIELD(errors_to, "Errors-To")
STANDIN_FIELD(etag, "ETag")
STANDIN_FIELD(expect, "Expect")
STANDIN_FIELD(expires, "Expires")
STANDIN_FIELD(expiry_date, "Expiry-Date")
STANDIN_FIELD(ext, "Ext")
STANDIN_FIELD(followup_to, "Followup-To")
STANDIN_FIELD(forwarded, "Forwarded")
STANDIN_FIELD(from, "From")
STANDIN_FIELD(generate_delivery_report, "Generate-Delivery-Report")
STANDIN_FIELD(getprofile, "GetProfile")
STANDIN_FIELD(hobareg, "Hobareg")
STANDIN_FIELD(host, "Host")
STANDIN_FIELD(http2_settings, "HTTP2-Settings")
STANDIN_FIELD(if_, "If")
STANDIN_FIELD(if_match, "If-Match")
STANDIN_FIELD(if_modified_since, "If-Modified-Since")
STANDIN_FIELD(if_none_match, "If-None-Match")
STANDIN_FIELD(if_range, "If-Range")
STANDIN_FIELD(if_schedule_tag_match, "If-Schedule-Tag-Match")
STANDIN_FIELD(if_unmodified_since, "If-Unmodified-Since")
STANDIN_FIELD(im, "IM")
STANDIN_FIELD(importance, "Importance")
STANDIN_FIELD(in_reply_to, "In-Reply-To")
STANDIN_FIELD(incomplete_copy, "Incomplete-Copy")
STANDIN_FIELD(injection_date, "Injection-Date")
STANDIN_FIELD(injection_info, "Injection-Info")
STANDIN_FIELD(jabber_id, "Jabber-ID")
STANDIN_FIELD(keep_alive, "Keep-Alive")
STANDIN_FIELD(keywords, "Keywords")
STANDIN_FIELD(label, "Label")
STANDIN_FIELD(language, "Language")
STANDIN_FIELD(last_modified, "Last-Modified")
STANDIN_FIELD(latest_delivery_time, "Latest-Delivery-Time")
STANDIN_FIELD(lines, "Lines")
STANDIN_FIELD(link, "Link")
STANDIN_FIELD(list_archive, "List-Archive")
STANDIN_FIELD(list_help, "List-Help")
STANDIN_FIELD(list_id, "List-ID")
STANDIN_FIELD(list_owner, "List-Owner")
STANDIN_FIELD(list_post, "List-Post")
STANDIN_FIELD(list_subscribe, "List-Subscribe")
STANDIN_FIELD(list_unsubscribe, "List-Unsubscribe")
STANDIN_FIELD(list_unsubscribe_post, "List-Unsubscribe-Post")
STANDIN_FIELD(location, "Location")
STANDIN_FIELD(lock_token, "Lock-Token")
STANDIN_FIELD(man, "Man")
STANDIN_FIELD(max_forwards, "Max-Forwards")
STANDIN_FIELD(memento_datetime, "Memento-Datetime")
STANDIN_FIELD(message_context, "Message-Context")
STANDIN_FIELD(message_id, "Message-ID")
STANDIN_FIELD(message_type, "Message-Type")
STANDIN_FIELD(meter, "Meter")
STANDIN_FIELD(method_check, "Method-Check")
STANDIN_FIELD(method_check_expires, "Method-Check-Expires")
STANDIN_FIELD(mime_version, "MIME-Version")
STANDIN_FIELD(mmhs_acp127_message_identifier, "MMHS-Acp127-Message-Identifier")
STANDIN_FIELD(mmhs_authorizing_users, "MMHS-Authorizing-Users")
STANDIN_FIELD(mmhs_codress_message_indicator, "MMHS-Codress-Message-Indicator")
STANDIN_FIELD(mmhs_copy_precedence, "MMHS-Copy-Precedence")
STANDIN_FIELD(mmhs_exempted_address, "MMHS-Exempted-Address")
STANDIN_FIELD(mmhs_extended_authorisation_info, "MMHS-Extended-Authorisation-Info")
STANDIN_FIELD(mmhs_handling_instructions, "MMHS-Handling-Instructions")
STANDIN_FIELD(mmhs_message_instructions, "MMHS-Message-Instructions")
STANDIN_FIELD(mmhs_message_type, "MMHS-Message-Type")
STANDIN_FIELD(mmhs_originator_plad, "MMHS-Originator-PLAD")
STANDIN_FIELD(mmhs_originator_reference, "MMHS-Originator-Reference")
STANDIN_FIELD(mmhs_other_recipients_indicator_cc, "MMHS-Other-Recipients-Indicator-CC")
STANDIN_FIELD(mmhs_other_recipients_indicator_to, "MMHS-Other-Recipients-Indicator-To")
STANDIN_FIELD(mmhs_primary_precedence, "MMHS-Primary-Precedence")
STANDIN_FIELD(mmhs_subject_indicator_codes, "MMHS-Subject-Indicator-Codes")
STANDIN_FIELD(mt_priority, "MT-Priority")
STANDIN_FIELD(negotiate, "Negotiate")
STANDIN_FIELD(newsgroups, "Newsgroups")
STANDIN_FIELD(nntp_posting_date, "NNTP-Posting-Date")
STANDIN_FIELD(nntp_posting_host, "NNTP-Posting-Host")
STANDIN_FIELD(non_compliance, "Non-Compliance")
STANDIN_FIELD(obsoletes, "Obsoletes")
STANDIN_FIELD(opt, "Opt")
STANDIN_FIELD(optional, "Optional")
STANDIN_FIELD(optional_www_authenticate, "Optional-WWW-Authenticate")
STANDIN_FIELD(ordering_type, "Ordering-Type")
STANDIN_FIELD(organization, "Organization")
STANDIN_FIELD(origin, "Origin")
STANDIN_FIELD(original_encoded_information_types, "Original-Encoded-Information-Types")
STANDIN_FIELD(original_from, "Original-From")
STANDIN_FIELD(original_message_id, "Original-Message-ID")
STANDIN_FIELD(original_recipient, "Original-Recipient")
STANDIN_FIELD(original_sender, "Original-Sender")
STANDIN_FIELD(original_subject, "Original-Subject")
STANDIN_FIELD(originator_return_address, "Originator-Return-Address")
STANDIN_FIELD(overwrite, "Overwrite")
STANDIN_FIELD(p3p, "P3P")
STANDIN_FIELD(path, "Path")
STANDIN_FIELD(pep, "PEP")
STANDIN_FIELD(pep_info, "Pep-Info")
STANDIN_FIELD(pics_label, "PICS-Label")
STANDIN_FIELD(position, "Position")
STANDIN_FIELD(posting_version, "Posting-Version")
STANDIN_FIELD(pragma, "Pragma")
STANDIN_FIELD(prefer, "Prefer")
STANDIN_FIELD(preference_applied, "Preference-Applied")
STANDIN_FIELD(prevent_nondelivery_report, "Prevent-NonDelivery-Report")
STANDIN_FIELD(priority, "Priority")
STANDIN_FIELD(privicon, "Privicon")
STANDIN_FIELD(profileobject, "ProfileObject")
STANDIN_FIELD(protocol, "Protocol")
STANDIN_FIELD(protocol_info, "Protocol-Info")
STANDIN_FIELD(protocol_query, "Protocol-Query")
STANDIN_FIELD(protocol_request, "Protocol-Request")
STANDIN_FIELD(proxy_authenticate, "Proxy-Authenticate")
STANDIN_FIELD(proxy_authentication_info, "Proxy-Authentication-Info")
STANDIN_FIELD(proxy_authorization, "Proxy-Authorization")
STANDIN_FIELD(proxy_connection, "Proxy-Connection")
STANDIN_FIELD(proxy_features, "Proxy-Features")
STANDIN_FIELD(proxy_instruction, "Proxy-Instruction")
STANDIN_FIELD(public_, "Public")
STANDIN_FIELD(public_key_pins, "Public-Key-Pins")
STANDIN_FIELD(public_key_pins_report_only, "Public-Key-Pins-Report-Only")
STANDIN_FIELD(range, "Range")
STANDIN_FIELD(received, "Received")
STANDIN_FIELD(received_spf, "Received-SPF")
STANDIN_FIELD(redirect_ref, "Redirect-Ref")
STANDIN_FIELD(references, "References")
STANDIN_FIELD(referer, "Referer")
STANDIN_FIELD(referer_root, "Referer-Root")
STANDIN_FIELD(relay_version, "Relay-Version")
STANDIN_FIELD(reply_by, "Reply-By")
STANDIN_FIELD(reply_to, "Reply-To")
STANDIN_FIELD(require_recipient_valid_since, "Require-Recipient-Valid-Since")
STANDIN_FIELD(resent_bcc, "Resent-Bcc")
STANDIN_FIELD(resent_cc, "Resent-Cc")
STANDIN_FIELD(resent_date, "Resent-Date")
STANDIN_FIELD(resent_from, "Resent-From")
STANDIN_FIELD(resent_message_id, "Resent-Message-ID")
STANDIN_FIELD(resent_reply_to, "Resent-Reply-To")
STANDIN_FIELD(resent_sender, "Resent-Sender")
STANDIN_FIELD(resent_to, "Resent-To")
STANDIN_FIELD(resolution_hint, "Resolution-Hint")
STANDIN_FIELD(resolver_location, "Resolver-Location")
STANDIN_FIELD(retry_after, "Retry-After")
STANDIN_FIELD(return_path, "Return-Path")
STANDIN_FIELD(safe, "Safe")
STANDIN_FIELD(schedule_reply, "Schedule-Reply")
STANDIN_FIELD(schedule_tag, "Schedule-Tag")
STANDIN_FIELD(sec_fetch_dest, "Sec-Fetch-Dest")
STANDIN_FIELD(sec_fetch_mode, "Sec-Fetch-Mode")
STANDIN_FIELD(sec_fetch_site, "Sec-Fetch-Site")
STANDIN_FIELD(sec_fetch_user, "Sec-Fetch-User")
STANDIN_FIELD(sec_websocket_accept, "Sec-WebSocket-Accept")
STANDIN_FIELD(sec_websocket_extensions, "Sec-WebSocket-Extensions")
STANDIN_FIELD(sec_websocket_key, "Sec-WebSocket-Key")
STANDIN_FIELD(sec_websocket_protocol, "Sec-WebSocket-Protocol")
STANDIN_FIELD(sec_websocket_version, "Sec-WebSocket-Version")
STANDIN_FIELD(security_scheme, "Security-Scheme")
STANDIN_FIELD(see_also, "See-Also")
STANDIN_FIELD(sender, "Sender")
STANDIN_FIELD(sensitivity, "Sensitivity")
STANDIN_FIELD(server, "Server")
STANDIN_FIELD(set_cookie, "Set-Cookie")
STANDIN_FIELD(set_cookie2, "Set-Cookie2")
STANDIN_FIELD(setprofile, "SetProfile")
STANDIN_FIELD(sio_label, "SIO-Label")
STANDIN_FIELD(sio_label_history, "SIO-Label-History")
STANDIN_FIELD(slug, "SLUG")
STANDIN_FIELD(soapaction, "SoapAction")
STANDIN_FIELD(solicitation, "Solicitation")
STANDIN_FIELD(status_uri, "Status-URI")
STANDIN_FIELD(strict_transport_security, "Strict-Transport-Security")
STANDIN_FIELD(subject, "Subject")
STANDIN_FIELD(subok, "SubOK")
STANDIN_FIELD(subst, "Subst")
STANDIN_FIELD(summary, "Summary")
STANDIN_FIELD(supersedes, "Supersedes")
STANDIN_FIELD(surrogate_capability, "Surrogate-Capability")
STANDIN_FIELD(surrogate_control, "Surrogate-Control")
STANDIN_FIELD(tcn, "TCN")
STANDIN_FIELD(te, "TE")
STANDIN_FIELD(timeout, "Timeout")
STANDIN_FIELD(title, "Title")
STANDIN_FIELD(to, "To")
STANDIN_FIELD(topic, "Topic")
STANDIN_FIELD(trailer, "Trailer")
STANDIN_FIELD(transfer_encoding, "Transfer-Encoding")
STANDIN_FIELD(ttl, "TTL")
STANDIN_FIELD(ua_color, "UA-Color")
STANDIN_FIELD(ua_media, "UA-Media")
STANDIN_FIELD(ua_pixels, "UA-Pixels")
STANDIN_FIELD(ua_resolution, "UA-Resolution")
STANDIN_FIELD(ua_windowpixels, "UA-Windowpixels")
STANDIN_FIELD(upgrade, "Upgrade")
STANDIN_FIELD(urgency, "Urgency")
STANDIN_FIELD(uri, "URI")
STANDIN_FIELD(user_agent, "User-Agent")
STANDIN_FIELD(variant_vary, "Variant-Vary")
STANDIN_FIELD(vary, "Vary")
STANDIN_FIELD(vbr_info, "VBR-Info")
STANDIN_FIELD(version, "Version")
STANDIN_FIELD(via, "Via")
STANDIN_FIELD(want_digest, "Want-Digest")
STANDIN_FIELD(warning, "Warning")
STANDIN_FIELD(www_authenticate, "WWW-Authenticate")
STANDIN_FIELD(x_archived_at, "X-Archived-At")
STANDIN_FIELD(x_device_accept, "X-Device-Accept")
STANDIN_FIELD(x_device_accept_charset, "X-Device-Accept-Charset")
STANDIN_FIELD(x_device_accept_encoding, "X-Device-Accept-Encoding")
STANDIN_FIELD(x_device_accept_language, "X-Device-Accept-Language")
STANDIN_FIELD(x_device_user_agent, "X-Device-User-Agent")
STANDIN_FIELD(x_frame_options, "X-Frame-Options")
STANDIN_FIELD(x_mittente, "X-Mittente")
STANDIN_FIELD(x_pgp_sig, "X-PGP-Sig")
STANDIN_FIELD(x_ricevuta, "X-Ricevuta")
STANDIN_FIELD(x_riferimento_message_id, "X-Riferimento-Message-ID")
STANDIN_FIELD(x_tiporicevuta, "X-TipoRicevuta")
STANDIN_FIELD(x_trasporto, "X-Trasporto")
STANDIN_FIELD(x_verificasicurezza, "X-VerificaSicurezza")
STANDIN_FIELD(x400_content_identifier, "X400-Content-Identifier")
STANDIN_FIELD(x400_content_return, "X400-Content-Return")
STANDIN_FIELD(x400_content_type, "X400-Content-Type")
STANDIN_FIELD(x400_mts_identifier, "X400-MTS-Identifier")
STANDIN_FIELD(x400_originator, "X400-Originator")
STANDIN_FIELD(x400_received, "X400-Received")
STANDIN_FIELD(x400_recipients, "X400-Recipients")
STANDIN_FIELD(x400_trace, "X400-Trace")
STANDIN_FIELD(xref, "Xref")
