// the connection of C28, in the language and layout of the code under test
#include <sstream>
#include <list>
#include <map>
#include <vector>
#include <string>
#include <tr1/unordered_map>
#include <boost/asio.hpp>
#include <boost/bind/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/enable_shared_from_this.hpp>
#include <boost/signals2.hpp>
#include <stdlib.h>
#define private public
#define protected public
#include "daemon/EagerConnection.h"
#undef private
#undef protected
struct Conn { boost::asio::io_service svc; boost::shared_ptr<ConnectionInfo> ci; EagerConnection *e; };
extern "C" void *conn_new(unsigned seed) { Conn *c = new Conn; srand(seed); c->ci = EagerConnection::create(c->svc); c->e = c->ci->asEagerConnection(); c->e->resolveHost_ = "localhost"; c->e->resolvePort_ = "1"; return c; }
extern "C" void conn_del(void *p) { Conn *c = (Conn *)p; boost::system::error_code ec; c->e->timer_.cancel(ec); c->svc.stop(); c->e = 0; c->ci.reset(); /* the pending handler dies with the service */ delete c; }
extern "C" void conn_fail(void *p) { ((Conn *)p)->e->tryLater(); }
extern "C" void conn_wrote(void *p) { ((Conn *)p)->e->resetBackoffOnSuccessfulWrites(); }
extern "C" void conn_due(void *p) { ((Conn *)p)->e->tryingLater_ = false; }
extern "C" int conn_pending(void *p) { return ((Conn *)p)->e->tryingLater_; }
extern "C" int conn_delay(void *p) { return ((Conn *)p)->e->backoff_; }
extern "C" long conn_wait(void *p) { return ((Conn *)p)->e->timer_.expires_from_now().total_milliseconds(); }
