// choice_miter, choice_computation, aig_with_choice.
#include "aigdump.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
static std::shared_ptr<A> build( std::istringstream& is, bool clean ) {   // "op args;...", argument 2*r+c is result r
  auto a = std::make_shared<A>(); std::string part; std::vector<S> q{ a->get_constant( false ) };
  while ( std::getline( is, part, ';' ) ) {
    std::istringstream p( part ); std::string o; if ( !( p >> o ) ) continue; std::vector<uint64_t> v; uint64_t x; while ( p >> x ) v.push_back( x );
    std::vector<S> s; for ( auto y : v ) s.push_back( y & 1 ? !q[y >> 1] : q[y >> 1] ); int64_t res = -1;
    if ( o == "po" ) a->create_po( s[0] ); else if ( build_op( a.get(), *a, o, v, s, res ) ) q.push_back( sig( *a, res ) ); else std::exit( 3 );
  }
  // cleaned up, as the commands hand it over
  return clean ? std::make_shared<A>( cleanup_dangling( *a ) ) : a;
}
static std::string links( aig_with_choice const& c, uint64_t n, bool reprs ) {
  std::vector<int64_t> eq, rep, isr, refs;
  for ( uint64_t i = 0; i < n; ++i ) { auto e = c.get_equiv_node( i ); eq.push_back( e == aig_with_choice::AIG_NULL ? -1 : int64_t( e ) ); rep.push_back( c.get_repr( i ) ); isr.push_back( c.is_repr( i ) ); refs.push_back( c.fanout_size( i ) ); }
  return "\"eq\":" + arr( eq ) + ( reprs ? ",\"rep\":" + arr( rep ) : "" ) + ",\"isrep\":" + arr( isr ) + ",\"refs\":" + arr( refs );
}
int main() {
  std::vector<std::shared_ptr<A>> nets; std::unique_ptr<aig_with_choice> c; choice_miter m; std::shared_ptr<A> last; std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op, r = "\"x\":0"; is >> op; int64_t res = 0;
    if ( op == "reset" ) { nets.clear(); c.reset(); m = choice_miter(); last.reset(); }
    else if ( op == "net" ) nets.push_back( build( is, true ) );
    else if ( op == "rnet" ) nets.push_back( build( is, false ) );
    else if ( op == "cmiter" ) {   // how: 0 = fresh miter with the list, 1 = reused after clear, adding one by one
      int how; is >> how; A p;
      if ( how == 0 ) { choice_miter f( nets ); p = f.merge_aigs_to_miter(); } else { m.clear(); for ( auto& x : nets ) m.add_aig( x ); p = m.merge_aigs_to_miter(); }
      std::string q; for ( auto& x : nets ) put( q, dump( *x ) );
      r = "\"nets\":[" + q + "],\"post\":" + dump( p ); last = std::make_shared<A>( p );
    } else if ( op == "drop" ) nets.clear();
    else if ( op == "choice" ) {   // of the last merged network
      choice_params ps; is >> ps.nwords >> ps.BT_limit >> ps.max_sat_var >> ps.calls_recycle; int f; is >> f; ps.polar_flip = f;
      std::string before = dump( *last ); choice_computation cc( ps, *last ); auto w = cc.compute_choice();
      r = "\"net\":" + before + ",\"post\":" + dump( w ) + "," + links( w, w.size(), false );
    } else if ( op == "cinit" ) { c = std::make_unique<aig_with_choice>( *nets[0] ); r = "\"net\":" + dump( *c ) + "," + links( *c, c->size(), true ); }
    else if ( op == "setc" ) { uint64_t n, k; is >> n >> k; res = c->set_choice( n, k ); r = "\"args\":[" + std::to_string( n ) + "," + std::to_string( k ) + "]," + links( *c, c->size(), true ); }
    else if ( op == "mux" ) { uint64_t n; is >> n; S i, t, e; res = c->is_mux( n ); if ( res ) c->recognize_mux( n, i, t, e );
      r = "\"args\":[" + std::to_string( n ) + "],\"ite\":[" + ( res ? std::to_string( lit( *c, i ) ) + "," + std::to_string( lit( *c, t ) ) + "," + std::to_string( lit( *c, e ) ) : "" ) + "]"; }
    else return 3;
    std::cout << "{\"op\":\"" << op << "\",\"res\":" << res << "," << r << "}" << std::endl;
  }
}
