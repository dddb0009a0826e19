// Equivalence checking and validation: miter, equivalence_checking, circuit_validator.
#include "aigdump.hpp"
#include "klutdump.hpp"
#include "algorithms/miter.hpp"
#include "algorithms/equivalence_checking.hpp"
#include "algorithms/circuit_validator.hpp"
using K = klut_network;
static std::string show( A const& a ) { return dump( a ); }
static std::string show( K const& k ) { return klut_dump( k ); }
struct Slot { std::unique_ptr<A> a; std::unique_ptr<K> k; };
// "op args;op args;...": argument 2*r+c is result r (0: constant), inverted iff c
static void build( Slot& t, bool klut, std::istringstream& is ) {
  t.a.reset(); t.k.reset(); std::string part;
  if ( klut ) t.k = std::make_unique<K>(); else t.a = std::make_unique<A>();
  std::vector<S> r; std::vector<K::signal> q;
  if ( klut ) q.push_back( t.k->get_constant( false ) ); else r.push_back( t.a->get_constant( false ) );
  while ( std::getline( is, part, ';' ) ) {
    std::istringstream p( part ); std::string op; if ( !( p >> op ) ) continue;
    std::vector<uint64_t> v; std::string w, hex; while ( p >> w ) { if ( w[0] == 'x' ) hex = w.substr( 1 ); else v.push_back( std::stoull( w ) ); }
    if ( klut ) {
      std::vector<K::signal> s; for ( auto y : v ) { auto f = q[y >> 1]; s.push_back( y & 1 ? t.k->create_not( f ) : f ); }
      if ( op == "pi" ) q.push_back( t.k->create_pi() );
      else if ( op == "po" ) t.k->create_po( s[0] );
      else if ( op == "node" ) { kitty::dynamic_truth_table tt( s.size() ); kitty::create_from_hex_string( tt, hex ); q.push_back( t.k->create_node( s, tt ) ); }
      else if ( op == "and" ) q.push_back( t.k->create_and( s[0], s[1] ) );
      else if ( op == "or" ) q.push_back( t.k->create_or( s[0], s[1] ) );
      else if ( op == "xor" ) q.push_back( t.k->create_xor( s[0], s[1] ) );
      else if ( op == "maj" ) q.push_back( t.k->create_maj( s[0], s[1], s[2] ) );
      else if ( op == "ite" ) q.push_back( t.k->create_ite( s[0], s[1], s[2] ) );
      else std::exit( 3 );
    } else {
      std::vector<S> s; for ( auto y : v ) s.push_back( y & 1 ? !r[y >> 1] : r[y >> 1] );
      int64_t res = -1;
      if ( op == "po" ) t.a->create_po( s[0] );
      else if ( build_op( t.a.get(), *t.a, op, v, s, res ) ) r.push_back( sig( *t.a, res ) );
      else std::exit( 3 );
    }
  }
}
template<class D, class X, class Y> static std::string equiv( X const& x, Y const& y ) {
  auto m = miter<D>( x, y );
  std::string r = "\"has\":" + std::string( m ? "1" : "0" );
  if ( !m ) return r + ",\"miter\":[],\"eq\":-1,\"cex\":[],\"ksrc\":" + ( std::is_same_v<D, K> ? "1" : "0" );
  equivalence_checking_stats st; auto e = equivalence_checking( *m, {}, &st );
  std::vector<int> cex; for ( bool b : st.counter_example ) cex.push_back( b );
  return r + ",\"miter\":" + show( *m ) + ",\"eq\":" + ( e ? ( *e ? "1" : "0" ) : "-1" ) + ",\"cex\":" + arr( cex ) + ",\"ksrc\":" + ( std::is_same_v<D, K> ? "1" : "0" );
}
struct Val { virtual ~Val() {} virtual int call( A const& a, std::string const& op, std::vector<uint64_t> const& v, std::vector<bool>& cex, std::vector<std::vector<bool>>& pats ) = 0; };
template<bill::solvers So, bool pp, bool rnd> struct ValT : Val {
  using V = circuit_validator<A, So, pp, rnd>; V c;
  ValT( A const& a, validator_params const& ps ) : c( a, ps ) {}
  int call( A const& a, std::string const& op, std::vector<uint64_t> const& v, std::vector<bool>& cex, std::vector<std::vector<bool>>& pats ) override {
    std::optional<bool> r;
    if ( op == "val" ) r = c.validate( sig( a, v[0] ), sig( a, v[1] ) );
    else if ( op == "valn" ) r = c.validate( A::node( v[0] >> 1 ), sig( a, v[1] ) );
    else if ( op == "valc" ) r = c.validate( sig( a, v[0] ), bool( v[1] ) );
    else if ( op == "valnc" ) r = c.validate( A::node( v[0] >> 1 ), bool( v[1] ) );
    else if ( op == "valx" || op == "valnx" ) {
      size_t i = 3; bool neg = v[1]; std::vector<A::node> divs; for ( uint64_t k = 0; k < v[2]; ++k ) divs.push_back( v[i++] >> 1 );
      std::vector<typename V::gate> g; uint64_t ng = v[i++];
      for ( uint64_t k = 0; k < ng; ++k ) {
        typename V::gate x; x.type = v[i] == 0 ? V::AND : v[i] == 1 ? V::XOR : V::MAJ; i++; uint64_t nf = v[i++];
        for ( uint64_t j = 0; j < nf; ++j, ++i ) x.fanins.push_back( {uint32_t( v[i] >> 1 ), bool( v[i] & 1 )} );
        g.push_back( x );
      }
      if ( op == "valx" ) r = c.validate( sig( a, v[0] ), divs, g, neg ); else r = c.validate( A::node( v[0] >> 1 ), divs, g, neg );
    }
    else if ( op == "upd" ) { c.update(); return 1; }
    else if constexpr ( pp ) {
      std::vector<std::vector<bool>> block;
      for ( size_t i = 3; i < v.size(); ++i ) { std::vector<bool> p; for ( uint32_t k = 0; k < a.num_pis(); ++k ) p.push_back( v[i] >> k & 1 ); block.push_back( p ); }
      pats = c.generate_pattern( sig( a, v[0] ), bool( v[1] ), block, v[2] ); return 1;
    }
    cex = c.cex; return r ? *r : -1;
  }
};
int main() {
  auto a = std::make_unique<A>(); std::unique_ptr<Val> val; Slot t[2]; Log g; watch( *a, g ); std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op; is >> op;
    if ( op == "net" ) { int k; std::string kind; is >> k >> kind; build( t[k], kind == "klut", is ); std::cout << "{}" << std::endl; continue; }
    if ( op == "equiv" ) {
      std::string d, r; is >> d; Slot &x = t[0], &y = t[1];
      if ( d == "aig" ) r = equiv<A>( *x.a, *y.a );
      else if ( x.a && y.a ) r = equiv<K>( *x.a, *y.a );
      else if ( x.a ) r = equiv<K>( *x.a, *y.k );
      else if ( y.a ) r = equiv<K>( *x.k, *y.a );
      else r = equiv<K>( *x.k, *y.k );
      std::cout << "{\"op\":\"equiv\",\"res\":0,\"ka\":" << ( x.k ? 1 : 0 ) << ",\"kb\":" << ( y.k ? 1 : 0 ) << ",\"a\":" << ( x.k ? show( *x.k ) : show( *x.a ) ) << ",\"b\":" << ( y.k ? show( *y.k ) : show( *y.a ) ) << "," << r << "}" << std::endl;
      continue;
    }
    std::vector<uint64_t> v; uint64_t x; while ( is >> x ) v.push_back( x );
    int64_t res = -1; g = Log(); std::vector<bool> cex; std::vector<std::vector<bool>> pats; std::vector<S> s;
    bool isval = op.compare( 0, 3, "val" ) == 0 || op == "gen" || op == "upd";
    if ( !isval && op != "vnew" ) for ( auto y : v ) s.push_back( sig( *a, y ) );
    if ( op == "new" ) { val.reset(); a = std::make_unique<A>(); watch( *a, g ); }
    else if ( op == "vnew" ) {
      val.reset(); validator_params ps; ps.max_clauses = v[1]; ps.conflict_limit = 0; ps.random_seed = v[2];
      if ( v[0] == 0 ) val = std::make_unique<ValT<bill::solvers::glucose_41, false, false>>( *a, ps );
      else if ( v[0] == 1 ) val = std::make_unique<ValT<bill::solvers::bsat2, true, false>>( *a, ps );
      else val = std::make_unique<ValT<bill::solvers::bsat2, true, true>>( *a, ps );
    }
    else if ( op == "vend" ) val.reset();
    else if ( isval ) res = val->call( *a, op, v, cex, pats );
    else if ( op == "po" ) res = a->create_po( s[0] );
    else if ( op == "subst" ) a->substitute_node( s[0].index, s[1] );
    else if ( build_op( a.get(), *a, op, v, s, res ) ) {}
    else return 3;
    std::vector<int> ci; for ( bool b : cex ) ci.push_back( b );
    std::vector<std::string> pi; for ( auto const& p : pats ) { std::vector<int> q; for ( bool b : p ) q.push_back( b ); pi.push_back( arr( q ) ); }
    std::cout << "{\"op\":\"" << op << "\",\"res\":" << res << ",\"add\":[" << g.add << "],\"mod\":[" << g.mod << "],\"del\":[" << g.del << "],\"post\":" << dump( *a ) << ",\"cex\":" << arr( ci ) << ",\"pats\":" << arr( pi ) << "}" << std::endl;
  }
}
