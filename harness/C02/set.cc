#include "c02.hh"

using namespace c02;

SECTION( history_set, 4000, 60000 ) { history<representations::Set<unsigned>>( c ); }
SECTION( conversion_set, 1500, 20000 ) { conversion<representations::Set<unsigned>>( c ); }
SECTION( types_set, 1200, 15000 )
{
  switch( c.k % 4 )
  {
  case 0: history<representations::Set<int>>( c ); break;
  case 1: history<representations::Set<std::size_t>>( c ); break;
  case 2: conversion<representations::Set<short>>( c ); break;
  default: conversion<representations::Set<std::size_t>>( c ); break;
  }
}
