// (Boost Software License, Version 1.0)
STANDIN_VERB(delete_, "DELETE")
STANDIN_VERB(get, "GET")
STANDIN_VERB(head, "HEAD")
STANDIN_VERB(post, "POST")
STANDIN_VERB(put, "PUT")
STANDIN_VERB(connect, "CONNECT")
STANDIN_VERB(options, "OPTIONS")
STANDIN_VERB(trace, "TRACE")
STANDIN_VERB(copy, "COPY")
STANDIN_VERB(lock, "LOCK")
STANDIN_VERB(mkcol, "MKCOL")
STANDIN_VERB(move, "MOVE")
STANDIN_VERB(propfind, "PROPFIND")
STANDIN_VERB(proppatch, "PROPPATCH")
STANDIN_VERB(search, "SEARCH")
STANDIN_VERB(unlock, "UNLOCK")
STANDIN_VERB(bind, "BIND")
STANDIN_VERB(rebind, "REBIND")
STANDIN_VERB(unbind, "UNBIND")
STANDIN_VERB(acl, "ACL")
STANDIN_VERB(report, "REPORT")
STANDIN_VERB(mkactivity, "MKACTIVITY")
STANDIN_VERB(checkout, "CHECKOUT")
STANDIN_VERB(merge, "MERGE")
STANDIN_VERB(msearch, "M-SEARCH")
STANDIN_VERB(notify, "NOTIFY")
STANDIN_VERB(subscribe, "SUBSCRIBE")
STANDIN_VERB(unsubscribe, "UNSUBSCRIBE")
STANDIN_VERB(patch, "PATCH")
STANDIN_VERB(purge, "PURGE")
STANDIN_VERB(mkcalendar, "MKCALENDAR")
STANDIN_VERB(link, "LINK")
STANDIN_VERB(unlink, "UNLINK")
