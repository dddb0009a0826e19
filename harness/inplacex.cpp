// What the network read looks like after the first rewriting of compress (level kept) and compress2 (not kept): rewriting works in place.
#include "io/reader.hpp"
#include "optimization/rewrite.hpp"
#include "database/views/depth_view.hpp"
#include "database/network/aig_network.hpp"
#include <cstdio>
using namespace iFPGA_NAMESPACE;
int main( int, char** argv ) {
  for ( bool keep : { true, false } ) {
    write_verilog_params ports; aig_network aig; Reader reader( std::string( argv[1] ), aig, ports );
    aig_network c( aig ); rewrite_params ps; ps.b_preserve_depth = keep; ps.b_use_zero_gain = false;
    c = rewrite( c, ps );
    depth_view<aig_network> d( aig );
    std::printf( "inplace %u %u\n", aig.num_gates(), d.depth() );
  }
}
