// The packaged FPGA flow: flowx input configuration verilog-output lut-output
#include "flow/flow_manager.hpp"
int main( int argc, char** argv ) {
  if ( argc != 5 ) return 9;
  iFPGA_NAMESPACE::flow_manager m( argv[1], argv[2], argv[3], argv[4] ); m.run(); std::fflush( stdout );
}
