#include "c02.hh"

using namespace c02;

SECTION( history_list, 4000, 60000 ) { history<representations::List<unsigned>>( c ); }
SECTION( conversion_list, 1500, 20000 ) { conversion<representations::List<unsigned>>( c ); }
SECTION( types_list, 1200, 15000 )
{
  switch( c.k % 4 )
  {
  case 0: history<representations::List<int>>( c ); break;
  case 1: history<representations::List<std::size_t>>( c ); break;
  case 2: conversion<representations::List<short>>( c ); break;
  default: conversion<representations::List<std::size_t>>( c ); break;
  }
}
