#include "c02.hh"

using namespace c02;

SECTION( history_vector, 4000, 60000 ) { history<representations::Vector<unsigned>>( c ); }
SECTION( conversion_vector, 1500, 20000 ) { conversion<representations::Vector<unsigned>>( c ); }
SECTION( types_vector, 1200, 15000 )
{
  switch( c.k % 4 )
  {
  case 0: history<representations::Vector<int>>( c ); break;
  case 1: history<representations::Vector<std::size_t>>( c ); break;
  case 2: conversion<representations::Vector<short>>( c ); break;
  default: conversion<representations::Vector<std::size_t>>( c ); break;
  }
}
