export * from './index';
