// Cuts, cut sets, cut enumeration, the truth table cache.
#include "aigdump.hpp"
#include "cut/cut_enumeration.hpp"
using C = cut_type<true, empty_cut_data>;
static std::vector<uint32_t> leaves( std::istringstream& is ) { std::vector<uint32_t> v; uint32_t n = 0, x; is >> n; while ( n-- && is >> x ) v.push_back( x ); return v; }
template<class X> static std::string cutl( X const& c ) { return arr( std::vector<uint32_t>( c.begin(), c.end() ) ); }
template<class X> static X mk( std::vector<uint32_t> const& l, uint32_t d ) { X c; c.set_leaves( l ); c->func_id = d; return c; }
struct Base {
  virtual ~Base() {}
  virtual int call( std::string const& op, std::vector<uint32_t> const& c, uint32_t d ) = 0;
  virtual std::string show() = 0;
};
template<int M> struct Set : Base {
  cut_set<C, M> s;
  int call( std::string const& op, std::vector<uint32_t> const& c, uint32_t d ) override {
    if ( op == "add" ) s.add_cut( c.begin(), c.end() )->func_id = d;
    else if ( op == "ins" ) s.insert( mk<C>( c, d ) );
    else if ( op == "isdom" ) return s.is_dominated( mk<C>( c, d ) );
    else if ( op == "best" ) s.update_best( d );
    else if ( op == "rem" ) s.remove( d );
    else if ( op == "limit" ) s.limit( d );
    else if ( op == "resize" ) s.resize( d );
    else if ( op == "clear" ) s.clear();
    return 0;
  }
  std::string show() override {
    std::string r; uint32_t i = 0;
    for ( auto* c : s ) { put( r, "{\"c\":" + cutl( *c ) + ",\"n\":" + std::to_string( c->size() ) + ",\"d\":" + std::to_string( ( *c )->func_id ) + "}" ); if ( &s[i++] != c ) std::exit( 4 ); }
    if ( i && &s.best() != *s.begin() ) std::exit( 4 );
    return "\"set\":[" + r + "],\"size\":" + std::to_string( s.size() );
  }
};
template<bool truth> static std::string enumerate( A const& a, cut_enumeration_params const& ps ) {
  auto cuts = cut_enumeration<A, truth>( a, ps ); std::string r;
  for ( uint32_t n = 0; n < cuts.nodes_size(); ++n ) {
    std::string q;
    for ( auto* c : cuts.cuts( n ) ) {
      std::string t = "[]"; if constexpr ( truth ) t = ttwords( cuts.truth_table( *c ), false );
      put( q, "{\"c\":" + cutl( *c ) + ",\"tt\":" + t + "}" );
    }
    put( r, "[" + q + "]" );
  }
  return "\"cuts\":[" + r + "]";
}
int main() {
  std::unique_ptr<Base> st; std::unique_ptr<truth_table_cache<kitty::dynamic_truth_table>> cache; auto a = std::make_unique<A>(); std::string line;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op; is >> op; std::string r;
    if ( op == "net" ) {   // as in equivx: "op args;...", argument 2*r+c is result r
      a = std::make_unique<A>(); std::string part; std::vector<S> q{ a->get_constant( false ) };
      while ( std::getline( is, part, ';' ) ) {
        std::istringstream p( part ); std::string o; if ( !( p >> o ) ) continue; std::vector<uint64_t> v; uint64_t x; while ( p >> x ) v.push_back( x );
        std::vector<S> s; for ( auto y : v ) s.push_back( y & 1 ? !q[y >> 1] : q[y >> 1] ); int64_t res = -1;
        if ( o == "po" ) a->create_po( s[0] ); else if ( build_op( a.get(), *a, o, v, s, res ) ) q.push_back( sig( *a, res ) ); else std::exit( 3 );
      }
      std::cout << "{}" << std::endl; continue;
    }
    if ( op == "enum" ) {
      uint32_t k, p, m, t; is >> k >> p >> m >> t; cut_enumeration_params ps; ps.cut_size = k; ps.cut_limit = p; ps.minimize_truth_table = m;
      r = "\"net\":" + dump( *a ) + "," + ( t ? enumerate<true>( *a, ps ) : enumerate<false>( *a, ps ) );
    } else if ( op == "pair" ) {
      uint32_t k; is >> k; auto x = leaves( is ), y = leaves( is ); C c = mk<C>( x, 7 ), d = mk<C>( y, 9 ), u = mk<C>( std::vector<uint32_t>{ 3 }, 1 ), w;
      bool ok = c.merge( d, u, k ); bool same = true;
      // a cut made by merging and one made of the same leaves are the same cut
      if ( ok ) { w.set_leaves( u.begin(), u.end() ); C z = u; same = w.dominates( u ) && u.dominates( w ) && w.signature() == u.signature() && z.dominates( u ) && u.dominates( z ); }
      r = "\"a\":" + arr( x ) + ",\"b\":" + arr( y ) + ",\"k\":" + std::to_string( k ) + ",\"ok\":" + ( ok ? "1" : "0" ) + ",\"u\":" + ( ok ? cutl( u ) : "[]" ) + ",\"un\":" + std::to_string( ok ? u.size() : 0 )
        + ",\"usame\":" + ( same ? "1" : "0" ) + ",\"ab\":" + ( c.dominates( d ) ? "1" : "0" ) + ",\"ba\":" + ( d.dominates( c ) ? "1" : "0" ) + ",\"lt\":" + ( c < d ? "1" : "0" )
        + "," + ( st ? st->show() : "\"set\":[],\"size\":0" );
    } else if ( op == "cnew" ) { cache = std::make_unique<truth_table_cache<kitty::dynamic_truth_table>>(); r = "\"size\":0"; }
    else if ( op == "cache" ) {
      uint32_t n; std::string h; is >> n >> h; kitty::dynamic_truth_table t( n ); kitty::create_from_hex_string( t, h );
      auto l = cache->insert( t ); r = "\"n\":" + std::to_string( n ) + ",\"tt\":" + ttwords( t, false ) + ",\"back\":" + ttwords( ( *cache )[l], false ) + ",\"inv\":" + ttwords( ( *cache )[l ^ 1], false ) + ",\"size\":" + std::to_string( cache->size() );
      std::cout << "{\"op\":\"cache\",\"res\":" << l << "," << r << "}" << std::endl; continue;
    } else {
      uint32_t d; is >> d; auto c = leaves( is ); int res = 0;
      if ( op == "new" ) { switch ( d ) { case 1: st = std::make_unique<Set<1>>(); break; case 2: st = std::make_unique<Set<2>>(); break; case 3: st = std::make_unique<Set<3>>(); break; case 4: st = std::make_unique<Set<4>>(); break; case 6: st = std::make_unique<Set<6>>(); break; default: st = std::make_unique<Set<26>>(); } }
      else res = st->call( op, c, d );
      std::cout << "{\"op\":\"" << op << "\",\"res\":" << res << ",\"cut\":" << arr( c ) << ",\"d\":" << d << ",\"args\":[" << d << "]," << st->show() << "}" << std::endl; continue;
    }
    std::cout << "{\"op\":\"" << op << "\",\"res\":0," << r << "}" << std::endl;
  }
}
