#include "aws_stub_all.hxx"
