// Reading a network: lists, indices, registers, values and marks, cone counting, node maps, clause encodings.
#include "aigdump.hpp"
#include "klutdump.hpp"
#include "algorithms/ref_deref.hpp"
#include "algorithms/cnf.hpp"
#include "utils/node_map.hpp"
#include <algorithm>
using K = klut_network;
static int64_t vlit( uint32_t l ) { return l; }
static int64_t vlit( bill::lit_type l ) { return 2 * int64_t( l.variable() ) + ( l.is_complemented() ? 1 : 0 ); }
template<class T> static std::string plist( std::vector<std::vector<T>> const& v ) { std::vector<std::string> r; for ( auto const& x : v ) r.push_back( arr( x ) ); return arr( r ); }
template<class Ntk> struct Box {
  static constexpr bool AIG = std::is_same_v<Ntk, A>;
  using Sg = typename Ntk::signal; using Nd = typename Ntk::node; using I = int64_t;
  Ntk n;
  using Vec = node_map<uint32_t, Ntk>; using Uno = unordered_node_map<uint32_t, Ntk>;
  std::vector<std::unique_ptr<Vec>> vec; std::vector<std::unique_ptr<Uno>> uno;   // one of the two per handle
  Sg s( uint64_t l ) const { if constexpr ( AIG ) return Sg( l >> 1, l & 1 ); else return l; }
  I l( Sg const& x ) const { if constexpr ( AIG ) return 2 * I( n.get_node( x ) ) + n.is_complemented( x ); else return n.get_node( x ); }
  std::string show() const {
    std::vector<std::string> fi, tt; std::vector<I> dead, refs, val, vis, ph, ma, mb, isci, ispi, isro, cidx, fs; std::vector<I> cis, cos, res, ciat, coat, piat, poat, roat, riat, coidx, poidx, riidx, piidx, roidx, toro, tori;
    for ( uint64_t i = 0; i < n.size(); ++i ) {
      std::vector<I> f; bool c = n.is_constant( i ), in = i > ( AIG ? 0 : 1 ) && n.is_ci( i );
      if ( !c && !in ) { n.foreach_fanin( i, [&]( auto const& x ) { f.push_back( l( x ) ); } ); tt.push_back( ttwords( n.node_function( i ), false ) ); } else tt.push_back( "[]" );
      fi.push_back( arr( f ) ); if constexpr ( AIG ) { dead.push_back( n.is_dead( i ) ); ph.push_back( n.phase( i ) ); ma.push_back( n.mark_a( i ) ); mb.push_back( n.mark_b( i ) ); } else { dead.push_back( 0 ); ph.push_back( 0 ); ma.push_back( 0 ); mb.push_back( 0 ); }
      refs.push_back( n.fanout_size( i ) ); val.push_back( n.value( i ) ); vis.push_back( n.visited( i ) ); fs.push_back( c || in ? 0 : n.fanin_size( i ) );
      isci.push_back( in ); ispi.push_back( in && n.is_pi( i ) ); isro.push_back( in && n.is_ro( i ) );
    }
    n.foreach_ci( [&]( auto x ) { cis.push_back( x ); cidx.push_back( n.ci_index( x ) ); } );
    n.foreach_co( [&]( auto const& x ) { cos.push_back( l( x ) ); coidx.push_back( n.co_index( x ) ); } );
    for ( uint32_t i = 0; i < n.num_cis(); ++i ) ciat.push_back( n.ci_at( i ) );
    for ( uint32_t i = 0; i < n.num_cos(); ++i ) coat.push_back( l( n.co_at( i ) ) );
    for ( uint32_t i = 0; i < n.num_pis(); ++i ) { piat.push_back( n.pi_at( i ) ); piidx.push_back( n.pi_index( n.pi_at( i ) ) ); }
    for ( uint32_t i = 0; i < n.num_pos(); ++i ) { poat.push_back( l( n.po_at( i ) ) ); poidx.push_back( n.po_index( n.po_at( i ) ) ); }
    for ( uint32_t i = 0; i + n.num_pis() < n.num_cis(); ++i ) { roat.push_back( n.ro_at( i ) ); roidx.push_back( n.ro_index( n.ro_at( i ) ) ); }
    for ( uint32_t i = 0; i + n.num_pos() < n.num_cos(); ++i ) { riat.push_back( l( n.ri_at( i ) ) ); riidx.push_back( n.ri_index( n.ri_at( i ) ) ); res.push_back( n.latch_reset( i ) ); }
    I nreg = -1;
    if ( roat.size() == riat.size() ) {
      nreg = n.num_registers();
      for ( uint32_t i = 0; i < nreg; ++i ) { tori.push_back( l( n.ro_to_ri( n.make_signal( n.ro_at( i ) ) ) ) ); toro.push_back( n.ri_to_ro( n.ri_at( i ) ) ); }
    }
    std::ostringstream o;
    auto f = [&]( char const* k, auto const& v ) { o << ",\"" << k << "\":" << arr( v ); };
    o << "{\"fi\":" << arr( fi ) << ",\"tt\":" << arr( tt );
    f( "dead", dead ); f( "refs", refs ); f( "val", val ); f( "vis", vis ); f( "ph", ph ); f( "ma", ma ); f( "mb", mb ); f( "isci", isci ); f( "ispi", ispi ); f( "isro", isro ); f( "cidx", cidx ); f( "fs", fs );
    f( "cis", cis ); f( "cos", cos ); f( "res", res ); f( "ciat", ciat ); f( "coat", coat ); f( "piat", piat ); f( "poat", poat ); f( "roat", roat ); f( "riat", riat ); f( "coidx", coidx ); f( "poidx", poidx ); f( "riidx", riidx ); f( "piidx", piidx ); f( "roidx", roidx ); f( "toro", toro ); f( "tori", tori );
    o << ",\"size\":" << n.size() << ",\"npi\":" << n.num_pis() << ",\"npo\":" << n.num_pos() << ",\"nci\":" << n.num_cis() << ",\"nco\":" << n.num_cos() << ",\"nlat\":" << ( AIG ? lat() : I( res.size() ) ) << ",\"nreg\":" << nreg << ",\"comb\":" << n.is_combinational() << ",\"trav\":" << n.trav_id() << "}";
    return o.str();
  }
  I lat() const { if constexpr ( AIG ) return n.num_latches(); else return 0; }
  // one visit list in each of the four call forms
  template<class El, class Each> std::string walk( Each&& each, uint64_t form, uint64_t stop, El&& el ) const {
    std::vector<std::vector<I>> r;
    auto rec = [&]( auto const& x, I i ) { auto v = el( x ); v.push_back( i ); r.push_back( v ); return r.size() != stop; };
    if ( form == 0 ) each( [&]( auto const& x ) -> void { rec( x, -1 ); } );
    else if ( form == 1 ) each( [&]( auto const& x, uint32_t i ) -> void { rec( x, i ); } );
    else if ( form == 2 ) each( [&]( auto const& x ) -> bool { return rec( x, -1 ); } );
    else each( [&]( auto const& x, uint32_t i ) -> bool { return rec( x, i ); } );
    return plist( r );
  }
  std::string walks( std::string const& what, uint64_t form, uint64_t stop, uint64_t node ) const {
    auto nd = [&]( auto x ) { return std::vector<I>{ I( x ) }; }; auto sg = [&]( Sg const& x ) { return std::vector<I>{ l( x ) }; };
    if ( what == "node" ) return walk( [&]( auto&& f ) { n.foreach_node( f ); }, form, stop, nd );
    if ( what == "gate" ) return walk( [&]( auto&& f ) { n.foreach_gate( f ); }, form, stop, nd );
    if ( what == "ci" ) return walk( [&]( auto&& f ) { n.foreach_ci( f ); }, form, stop, nd );
    if ( what == "pi" ) return walk( [&]( auto&& f ) { n.foreach_pi( f ); }, form, stop, nd );
    if ( what == "ro" ) return walk( [&]( auto&& f ) { n.foreach_ro( f ); }, form, stop, nd );
    if ( what == "co" ) return walk( [&]( auto&& f ) { n.foreach_co( f ); }, form, stop, sg );
    if ( what == "po" ) return walk( [&]( auto&& f ) { n.foreach_po( f ); }, form, stop, sg );
    if ( what == "ri" ) return walk( [&]( auto&& f ) { n.foreach_ri( f ); }, form, stop, sg );
    if ( what == "fanin" ) return walk( [&]( auto&& f ) { n.foreach_fanin( node, f ); }, form, stop, sg );
    if ( what == "reg" ) return walk( [&]( auto&& f ) { n.foreach_register( f ); }, form, stop, [&]( std::pair<Sg, Nd> const& p ) { return std::vector<I>{ l( p.first ), I( p.second ) }; } );
    std::exit( 3 );
  }
  template<class L> std::string cnf( uint64_t own, uint32_t off ) {
    std::vector<std::vector<I>> cl; std::vector<I> lits, outs;
    clause_callback_t<L> fn = [&]( std::vector<L> const& c ) { std::vector<I> v; for ( auto x : c ) v.push_back( vlit( x ) ); cl.push_back( v ); };
    std::vector<L> o;
    auto nl = own ? node_literals<Ntk, L>( n, off ) : node_literals<Ntk, L>( n );
    if ( own ) o = generate_cnf<Ntk, L>( n, fn, nl ); else o = generate_cnf<Ntk, L>( n, fn );
    for ( auto x : o ) outs.push_back( vlit( x ) );
    for ( uint64_t i = 0; i < n.size(); ++i ) lits.push_back( vlit( nl[Nd( i )] ) );
    return "\"clauses\":" + plist( cl ) + ",\"lits\":" + arr( lits ) + ",\"olits\":" + arr( outs );
  }
  std::string run( std::string const& op, std::vector<std::string> const& w ) {
    std::vector<uint64_t> v; for ( auto const& x : w ) v.push_back( x.empty() || !isdigit( x[0] ) ? 0 : std::stoull( x ) );
    I res = 0; std::string more;
    if ( op == "pi" ) res = l( n.create_pi() );
    else if ( op == "ro" ) res = l( n.create_ro() );
    else if ( op == "po" ) res = n.create_po( s( v[0] ) );
    else if ( op == "ri" ) res = n.create_ri( s( v[0] ), int8_t( v[1] ) );
    else if ( op == "and" ) res = l( n.create_and( s( v[0] ), s( v[1] ) ) );
    else if ( op == "xor" ) res = l( n.create_xor( s( v[0] ), s( v[1] ) ) );
    else if ( op == "node" ) {
      if constexpr ( !AIG ) { std::vector<Sg> f; for ( size_t i = 1; i < w.size(); ++i ) f.push_back( s( v[i] ) ); kitty::dynamic_truth_table t( f.size() ); kitty::create_from_hex_string( t, w[0].substr( 1 ) ); res = l( n.create_node( f, t ) ); }
    }
    else if ( op == "subst" ) n.substitute_node( Nd( v[0] ), s( v[1] ) );
    else if ( op == "setval" ) n.set_value( v[0], v[1] );
    else if ( op == "incval" ) res = n.incr_value( v[0] );
    else if ( op == "decval" ) res = n.decr_value( v[0] );
    else if ( op == "clrval" ) n.clear_values();
    else if ( op == "setvis" ) n.set_visited( v[0], v[1] );
    else if ( op == "clrvis" ) n.clear_visited();
    else if ( op == "inctrav" ) n.incr_trav_id();
    else if ( op == "mka" || op == "mkb" || op == "pha" ) { if constexpr ( AIG ) { if ( op == "mka" ) n.mark_a( v[0], bool( v[1] ) ); else if ( op == "mkb" ) n.mark_b( v[0], bool( v[1] ) ); else n.phase( v[0], bool( v[1] ) ); } }
    else if ( op == "reset" ) for ( uint64_t i = 0; i < n.size(); ++i ) n.set_value( i, n.fanout_size( i ) );
    else if ( op == "deref" ) res = deref_node_recursive<Ntk>( n, v[0] );
    else if ( op == "ref" ) res = ref_node_recursive<Ntk>( n, v[0] );
    else if ( op == "dsize" ) res = derefed_size<Ntk>( n, v[0] );
    else if ( op == "rsize" ) res = refed_size<Ntk>( n, v[0] );
    else if ( op == "csize" ) {
      auto t = [&]( Nd const& x ) { return n.is_constant( x ) || n.is_ci( x ) || std::find( v.begin() + 1, v.end(), x ) != v.end(); };
      res = deref_node_recursive_cond<Ntk, unit_cost<Ntk>, decltype( t )>( n, v[0], t );
      more = ",\"back\":" + std::to_string( ref_node_recursive_cond<Ntk, unit_cost<Ntk>, decltype( t )>( n, v[0], t ) );
    }
    else if ( op == "walk" ) more = ",\"seen\":" + walks( w[0], v[1], v[2], v[3] );
    else if ( op == "mvec" ) { vec.push_back( v[0] ? std::make_unique<Vec>( n, uint32_t( v[1] ) ) : std::make_unique<Vec>( n ) ); uno.push_back( nullptr ); }
    else if ( op == "muno" ) { uno.push_back( std::make_unique<Uno>( n ) ); vec.push_back( nullptr ); }
    else if ( op == "mdup" ) {   // 0: another name, 1: a copy of its own
      auto i = v[0]; std::unique_ptr<Vec> a; std::unique_ptr<Uno> b;
      if ( vec[i] ) a = v[1] ? std::make_unique<Vec>( n, *vec[i] ) : std::make_unique<Vec>( *vec[i] ); else b = v[1] ? std::make_unique<Uno>( uno[i]->copy() ) : std::make_unique<Uno>( *uno[i] );
      vec.push_back( std::move( a ) ); uno.push_back( std::move( b ) );
    }
    else if ( op == "mset" ) {   // by node or (AIG) by signal
      bool bysig = v[3];
      if constexpr ( AIG ) { if ( bysig ) { if ( vec[v[0]] ) ( *vec[v[0]] )[Sg( v[1], v[3] - 1 )] = v[2]; else ( *uno[v[0]] )[Sg( v[1], v[3] - 1 )] = v[2]; return fin( op, w, res, more ); } }
      if ( vec[v[0]] ) ( *vec[v[0]] )[Nd( v[1] )] = v[2]; else ( *uno[v[0]] )[Nd( v[1] )] = v[2];
    }
    else if ( op == "mget" ) {
      if constexpr ( AIG ) if ( v[2] ) { if ( vec[v[0]] ) res = std::as_const( *vec[v[0]] )[Sg( v[1], v[2] - 1 )]; else res = std::as_const( *uno[v[0]] )[Sg( v[1], v[2] - 1 )]; return fin( op, w, res, more ); }
      if ( vec[v[0]] ) res = std::as_const( *vec[v[0]] )[Nd( v[1] )]; else res = std::as_const( *uno[v[0]] )[Nd( v[1] )];
    }
    else if ( op == "mhas" ) { if constexpr ( AIG ) { res = v[2] ? uno[v[0]]->has( Sg( v[1], v[2] - 1 ) ) : uno[v[0]]->has( Nd( v[1] ) ); } else res = uno[v[0]]->has( Nd( v[1] ) ); }
    else if ( op == "mdel" ) uno[v[0]]->erase( Nd( v[1] ) );
    else if ( op == "mreset" ) { if ( uno[v[0]] ) uno[v[0]]->reset(); else if ( v[1] ) vec[v[0]]->reset( uint32_t( v[1] ) ); else vec[v[0]]->reset(); }
    else if ( op == "mresize" ) { if ( v[1] ) vec[v[0]]->resize( uint32_t( v[1] ) ); else vec[v[0]]->resize(); }
    else if ( op == "cnf" ) more = "," + ( v[0] & 1 ? cnf<bill::lit_type>( v[0] & 2, v[1] ) : cnf<uint32_t>( v[0] & 2, v[1] ) );
    else if ( op != "begin" ) std::exit( 3 );
    return fin( op, w, res, more );
  }
  std::string fin( std::string const& op, std::vector<std::string> const& w, I res, std::string const& more ) const {
    std::vector<std::string> a; for ( auto const& x : w ) a.push_back( !x.empty() && isdigit( x[0] ) ? x : "\"" + x + "\"" );
    std::vector<std::string> m;
    for ( size_t i = 0; i < vec.size(); ++i ) {
      std::vector<std::string> r;
      if ( uno[i] ) for ( uint64_t x = 0; x < n.size(); ++x ) if ( uno[i]->has( Nd( x ) ) ) r.push_back( "[" + std::to_string( x ) + "," + std::to_string( std::as_const( *uno[i] )[Nd( x )] ) + "]" );
      m.push_back( arr( r ) );
    }
    return "{\"op\":\"" + op + "\",\"kind\":" + ( AIG ? "0" : "1" ) + ",\"a\":" + arr( a ) + ",\"res\":" + std::to_string( res ) + more + ",\"maps\":" + arr( m ) + ",\"post\":" + show() + "}";
  }
};
int main() {
  std::string line; std::unique_ptr<Box<A>> a; std::unique_ptr<Box<K>> k;
  while ( std::getline( std::cin, line ) ) {
    std::istringstream is( line ); std::string op, x; std::vector<std::string> w; is >> op; while ( is >> x ) w.push_back( x );
    if ( op == "begin" ) { a.reset(); k.reset(); if ( w[0] == "0" ) a = std::make_unique<Box<A>>(); else k = std::make_unique<Box<K>>(); }
    std::cout << ( a ? a->run( op, w ) : k->run( op, w ) ) << std::endl;
  }
}
